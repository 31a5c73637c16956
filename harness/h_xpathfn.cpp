// XPath core functions, conversions and arithmetic run by the real engine, against the text of XPath 1.0 sections 3.5 and 4
#include "common.hpp"
#include <iostream>
#include <XPath/XPath.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <cmath>
#include <cfloat>
using namespace vh;
typedef std::string S;
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static double num(const S& t) { size_t b = 0, e = t.size(); while (b < e && sp(t[b])) ++b; while (e > b && sp(t[e - 1])) --e; S s = t.substr(b, e - b); size_t i = !s.empty() && s[0] == '-'; bool d = false, p = false;
  for (; i < s.size(); ++i) { if (s[i] == '.') { if (p) return NAN; p = true; } else if (s[i] >= '0' && s[i] <= '9') d = true; else return NAN; } return d ? strtod(s.c_str(), 0) : NAN; }
static bool big;   // an integer of 2^53 or more was turned into a string: which digits stand for it is left open
static S str(double v) { if (std::fabs(v) >= 9007199254740992.0 && !std::isinf(v)) big = true; if (v != v) return "NaN"; if (v == 0) return "0"; if (std::isinf(v)) return v < 0 ? "-Infinity" : "Infinity"; char b[800];
  if (v == std::floor(v)) { snprintf(b, sizeof b, "%.0f", v); return b; }
  for (int p = 0; p <= 17; ++p) { snprintf(b, sizeof b, "%.*e", p, v); if (strtod(b, 0) == v) { int ex = atoi(strchr(b, 'e') + 1); snprintf(b, sizeof b, "%.*f", std::max(0, p - ex), v); break; } }
  return b; }
static double rnd(double v) { if (v != v || std::isinf(v) || v == 0) return v; if (v >= -0.5 && v < 0) return -0.0; double f = std::floor(v); return v - f >= 0.5 ? f + 1 : f; }
static S substring(const S& s, double p, bool two, double l) { S o; double a = rnd(p), z = two ? a + rnd(l) : 0; for (size_t i = 1; i <= s.size(); ++i) if (double(i) >= a && (!two || double(i) < z)) o += s[i - 1]; return o; }
static S norm(const S& s) { S o; for (size_t i = 0; i < s.size(); ++i) if (!sp(s[i])) { if (i && sp(s[i - 1]) && !o.empty()) o += ' '; o += s[i]; } return o; }
static S trans(const S& s, const S& a, const S& b) { S o; for (char c : s) { size_t k = a.find(c); if (k == S::npos) o += c; else if (k < b.size()) o += b[k]; } return o; }
struct V { char k; bool b; double n; S s; S e; };
static V mb(bool b, const S& e) { V v; v.k = 'B'; v.b = b; v.n = 0; v.e = e; return v; }
static V mn(double n, const S& e) { V v; v.k = 'N'; v.b = false; v.n = n; v.e = e; return v; }
static V ms(const S& s, const S& e) { V v; v.k = 'S'; v.b = false; v.n = 0; v.s = s; v.e = e; return v; }
static bool B(const V& v) { return v.k == 'B' ? v.b : v.k == 'N' ? v.n == v.n && v.n != 0 : !v.s.empty(); }
static double N(const V& v) { return v.k == 'B' ? v.b : v.k == 'N' ? v.n : num(v.s); }
static S T(const V& v) { return v.k == 'B' ? (v.b ? "true" : "false") : v.k == 'N' ? str(v.n) : v.s; }
struct Item { S text; }; static std::vector<S> items;   // /r/i in document order
static V gen(Rng& r, int depth);
static S word(Rng& r) { static const char* al[] = {"ab", "abc ", "01.", " \t\n\rx", "-1 2.5", "abcdefghij", "\xc3\xa9""b"}; if (r(3) == 0) { static const char* w[] = {"", "1", "-1", " 12 ", "1e3", "+1", ".5", "5.", ".", "-", "--1", "- 1", "1.5.2", "0x10", "Infinity", "-Infinity", "NaN", "00012", "1\t2", "9007199254740993", "0.1", "1.7976931348623157", "123456789012345678901234567890", "true", "abcabc", "\n7\r", "-.5", "-0", "0.000001"}; return w[r(sizeof w / sizeof *w)]; }
  const char* a = al[r(7)]; size_t n = strlen(a); S o; for (unsigned k = r(r(8) ? 7 : 60); k; --k) o += a[r(n)]; return o; }
static S dec(Rng& r) { S o; if (r(4) == 0) { static const char* d[] = {"0", "1", "2", "3", "0.5", "1.5", "2.5", "0.49999999999999994", "4503599627370495.5", "4503599627370497", "9007199254740991", "9007199254740992", "9007199254740993", "4294967296", "2147483648", "4294967295.5", "18446744073709551616", "18446744073709551615", "1000000", "999999", "1234567", "0.000001", "0.0000001", "0.1", "0.3", "100000000000000000000000", "123456.789", "1e"}; o = d[r(27)]; return o; }
  if (r(24) == 0) { S z(r(2) ? r(330) : 295 + r(30), '0'); S d(1, char('1' + r(9))); return r(3) ? "0." + z + d : d + z.substr(0, 300); }
  for (unsigned k = r(r(4) ? 4 : 22); k; --k) o += char('0' + r(10)); if (r(2)) { o += '.'; for (unsigned k = o.size() == 1 ? 1 + r(8) : r(r(6) ? 9 : 30); k; --k) o += char('0' + r(10)); } return o.empty() ? "7" : o; }
static V lit(Rng& r) { switch (r(7)) {
  case 0: return r.coin() ? mb(true, "true()") : mb(false, "false()");
  case 1: case 2: { S d = dec(r); if (r(4) == 0) { double x = 0.125 * r(33) - 2; d = str(std::fabs(x)); return mn(x, x < 0 ? "(-" + d + ")" : d); } return mn(strtod(d.c_str(), 0), d); }
  case 3: { static const struct { const char* e; double v; } t[] = {{"(0 div 0)", NAN}, {"(1 div 0)", INFINITY}, {"(-1 div 0)", -INFINITY}, {"(-0)", -0.0}, {"(0)", 0.0}}; int m = r(5); return mn(t[m].v, t[m].e); }
  case 4: { if (items.empty()) return ms("", "/r/i"); unsigned k = 1 + r(items.size()); return r(3) ? ms(items[k - 1], "string(/r/i[" + std::to_string(k) + "])") : ms(items[0], "string(/r/i)"); }
  default: { S w = word(r); return ms(w, "'" + w + "'"); } } }
static V gen(Rng& r, int depth) { if (depth <= 0) return lit(r); auto g = [&] { return gen(r, r(2) ? depth - 1 : 0); };
  switch (r(27)) {
  case 0: { V a = g(), b = g(); return ms(T(a) + T(b), "concat(" + a.e + ", " + b.e + ")"); }
  case 1: { V a = g(), b = g(), c = g(), d = g(); return ms(T(a) + T(b) + T(c) + T(d), "concat(" + a.e + "," + b.e + "," + c.e + "," + d.e + ")"); }
  case 2: { V a = g(), b = r(2) ? g() : ms(T(a).substr(0, r(4)), ""); if (b.e.empty()) b.e = "'" + b.s + "'"; return mb(T(a).compare(0, T(b).size(), T(b)) == 0, "starts-with(" + a.e + "," + b.e + ")"); }
  case 3: { V a = g(), b = g(); return mb(T(a).find(T(b)) != S::npos, "contains(" + a.e + "," + b.e + ")"); }
  case 4: case 5: { V a = g(); S t = T(a); size_t q = t.empty() ? 0 : r(t.size()); V b = r(2) ? g() : ms(t.substr(q, r(3)), "'" + t.substr(q, 0) + "'"); if (r(2) && b.k == 'S') b.e = "'" + b.s + "'"; else if (b.k == 'S' && b.e == "''") b.s = ""; size_t p = t.find(T(b)); return r(2) ? ms(p == S::npos ? "" : t.substr(0, p), "substring-before(" + a.e + "," + b.e + ")") : ms(p == S::npos ? "" : t.substr(p + T(b).size()), "substring-after(" + a.e + "," + b.e + ")"); }
  case 6: { V a = g(), p = r(2) ? g() : mn(r(6), std::to_string(0)); if (p.e == "0") p.e = str(p.n); return ms(substring(T(a), N(p), false, 0), "substring(" + a.e + "," + p.e + ")"); }
  case 7: case 8: { V a = g(), p = g(), l = g(); if (r(2)) { double x = r(8) * 0.5 - 1; p = mn(x, x < 0 ? "(" + str(x) + ")" : str(x)); } if (r(2)) { double x = r(12) * 0.5 - 1; l = mn(x, x < 0 ? "(" + str(x) + ")" : str(x)); } return ms(substring(T(a), N(p), true, N(l)), "substring(" + a.e + "," + p.e + "," + l.e + ")"); }
  case 9: { V a = g(); return mn(T(a).size(), "string-length(" + a.e + ")"); }
  case 10: { V a = g(); return ms(norm(T(a)), "normalize-space(" + a.e + ")"); }
  case 11: case 12: { V a = g(), b = g(), c = g(); if (r(2)) { S w = word(r); b = ms(w, "'" + w + "'"); w = word(r); c = ms(w, "'" + w + "'"); } return ms(trans(T(a), T(b), T(c)), "translate(" + a.e + "," + b.e + "," + c.e + ")"); }
  case 13: { V a = g(); return mb(B(a), "boolean(" + a.e + ")"); }
  case 14: { V a = g(); return mb(!B(a), "not(" + a.e + ")"); }
  case 15: { V a = g(); return mn(N(a), "number(" + a.e + ")"); }
  case 16: { V a = g(); return ms(T(a), "string(" + a.e + ")"); }
  case 17: { V a = g(); return mn(std::floor(N(a)), "floor(" + a.e + ")"); }
  case 18: { V a = g(); return mn(std::ceil(N(a)), "ceiling(" + a.e + ")"); }
  case 19: { V a = g(); return mn(rnd(N(a)), "round(" + a.e + ")"); }
  case 20: { V a = g(), b = g(); switch (r(5)) { case 0: return mn(N(a) + N(b), "(" + a.e + " + " + b.e + ")"); case 1: return mn(N(a) - N(b), "(" + a.e + " - " + b.e + ")"); case 2: return mn(N(a) * N(b), "(" + a.e + " * " + b.e + ")"); case 3: return mn(N(a) / N(b), "(" + a.e + " div " + b.e + ")"); default: return mn(std::fmod(N(a), N(b)), "(" + a.e + " mod " + b.e + ")"); } }
  case 21: { V a = g(); return mn(-N(a), "(-(" + a.e + "))"); }
  case 22: { V a = g(), b = g(); return r.coin() ? mb(B(a) && B(b), "(" + a.e + " and " + b.e + ")") : mb(B(a) || B(b), "(" + a.e + " or " + b.e + ")"); }
  case 23: { double t = 0; for (auto& s : items) t += num(s); return mn(t, "sum(/r/i)"); }
  case 24: return mn(items.size(), "count(/r/i)");
  case 25: { V a = g(), b = g(); double x = N(a), y = N(b); return mn(std::fmod(x, y), "(number(" + a.e + ") mod number(" + b.e + "))"); }
  default: { V a = mn(std::ldexp(double(r(1u << 30)) * (1u << 22) + r(1u << 22), int(r(90)) - 70), ""); S d = str(a.n); a.e = d; if (num(d) != a.n) fail("oracle", d); return a; } } }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  for (unsigned n = 0, e = o.n(120, 2500); n < e; ++n) {
    items.clear(); S xml = "<r>"; for (unsigned k = r(5); k; --k) { S w = word(r), q; for (char& ch : w) if (ch & 0x80) ch = 'q'; for (char ch : w) { char b[8]; if (ch == '\r' || ch == '\n' || ch == '\t') { snprintf(b, sizeof b, "&#%d;", ch); q += b; } else q += ch; } xml += "<i>" + q + "</i>"; items.push_back(w); } xml += "</r>";
    std::istringstream xs(xml); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi); Arabica::DOM::Document<S> doc = p.getDocument(); Arabica::XPath::XPath<S> xp; if (doc == 0) { fail("parse", xml); continue; }
    for (int q = 0; q < 60; ++q) { big = false; V a = gen(r, 1 + r(3)); T(a); bool open = big; begin(a.k == 'N' ? "number" : a.k == 'B' ? "boolean" : "string", a.e + " in " + xml);
      try { auto ex = xp.compile_expr(a.e); auto val = ex.evaluate(doc);
        if (open) continue; double gn = val.asNumber(), wn = N(a); S gs = val.asString(), ws = T(a); bool gb = val.asBool(), wb = B(a);
        if (!(gn == wn || (gn != gn && wn != wn)) || (gn == 0 && std::signbit(gn) != std::signbit(wn))) fail("number", current() + " as number is " + str(gn) + " not " + str(wn) + (gn == 0 ? " (sign of zero)" : ""));
        else if (gs != ws) fail("string", current() + " as string is '" + gs + "' not '" + ws + "'");
        else if (gb != wb) fail("boolean", current() + (gb ? " is true" : " is false")); }
      catch (const std::exception& x) { fail("exception", current() + " " + x.what()); } } }
  return finish(); }
