// XPath comparisons run by the real engine, against the table of XPath 1.0 section 3.4
#include "common.hpp"
#include <iostream>
#include <XPath/XPath.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <cmath>
using namespace vh;
typedef std::string S;
struct V { int k; bool b; double n; S s; std::vector<S> ns; S expr; };   // 1 boolean 2 number 3 string 4 node-set
static const char* words[] = {"", "a", "b", "1", "2", "-1", "1.5", "01", "1.0", " 2 ", "x 1", "0", "-0", "true", "false", "10", "9", "NaN"};
static double num(const S& t) { size_t b = t.find_first_not_of(" "), e = t.find_last_not_of(" "); if (b == S::npos) return NAN; S s = t.substr(b, e - b + 1); size_t i = s[0] == '-'; bool d = false, p = false; for (; i < s.size(); ++i) { if (s[i] == '.') { if (p) return NAN; p = true; } else if (s[i] >= '0' && s[i] <= '9') d = true; else return NAN; } return d ? strtod(s.c_str(), 0) : NAN; }
static bool B(const V& v) { return v.k == 1 ? v.b : v.k == 2 ? v.n == v.n && v.n != 0 : v.k == 3 ? !v.s.empty() : !v.ns.empty(); }
static double N(const V& v) { return v.k == 1 ? v.b : v.k == 2 ? v.n : v.k == 3 ? num(v.s) : v.ns.empty() ? NAN : num(v.ns[0]); }
static bool rel(int op, double a, double b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
static V one(const S& s) { V v; v.k = 3; v.s = s; return v; }
static bool cmp(int op, const V& a, const V& b) {
  if (a.k == 4 || b.k == 4) {
    if (a.k == 1 || b.k == 1) { if (op < 2) return (B(a) == B(b)) == (op == 0); return rel(op, B(a), B(b)); }
    if (a.k == 4) { for (auto& s : a.ns) if (cmp(op, one(s), b)) return true; return false; }
    for (auto& s : b.ns) if (cmp(op, a, one(s))) return true; return false; }
  if (op >= 2) return rel(op, N(a), N(b));
  if (a.k == 1 || b.k == 1) return (B(a) == B(b)) == (op == 0);
  if (a.k == 2 || b.k == 2) return rel(op, N(a), N(b));
  return (a.s == b.s) == (op == 0); }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed); static const char* ops[] = {"=", "!=", "<", "<=", ">", ">="};
  for (unsigned n = 0, e = o.n(150, 2500); n < e; ++n) {
    unsigned vocab = r(3) ? 3 : 18, base = r(18); std::vector<S> g[4]; S xml = "<r>"; 
    for (int i = 0; i < 4; ++i) { S name(1, char('a' + i)); xml += "<" + name + ">"; unsigned k = r(6) == 0 ? 12 : r(4); for (unsigned j = 0; j < k; ++j) { S w = words[(base + r(vocab)) % 18]; g[i].push_back(w);
      switch (r(3)) { case 0: xml += "<i>" + w + "</i>"; break; case 1: xml += "<i><b>" + w.substr(0, w.size() / 2) + "</b><![CDATA[" + w.substr(w.size() / 2) + "]]></i>"; break; default: xml += "<i>" + w.substr(0, w.size() / 2) + "<!-- 7 -->" + w.substr(w.size() / 2) + "</i>"; } } xml += "</" + name + ">"; } xml += "</r>";
    std::istringstream xs(xml); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi); Arabica::DOM::Document<S> doc = p.getDocument(); Arabica::XPath::XPath<S> xp;
    for (int q = 0; q < 40; ++q) { V a[2]; 
      for (int i = 0; i < 2; ++i) { V& x = a[i]; switch (r(6)) {
        case 0: x.k = 1; x.b = r.coin(); x.expr = x.b ? "true()" : "false()"; break;
        case 1: { x.k = 2; static const struct { const char* e; double v; } t[] = {{"1", 1}, {"2", 2}, {"-1", -1}, {"1.5", 1.5}, {"0", 0}, {"10", 10}, {"(0 div 0)", NAN}, {"(1 div 0)", INFINITY}, {"(-1 div 0)", -INFINITY}, {"9", 9}}; int m = r(10); x.expr = t[m].e; x.n = t[m].v; break; }
        case 2: x.k = 3; x.s = words[(base + r(vocab)) % 18]; x.expr = "'" + x.s + "'"; break;
        default: { x.k = 4; int m = r(4); x.ns = g[m]; x.expr = S("/r/") + char('a' + m) + "/i"; if (r(4) == 0) { int m2 = r(4); x.expr += S("|/r/") + char('a' + m2) + "/i"; if (m2 < m) { x.ns = g[m2]; x.ns.insert(x.ns.end(), g[m].begin(), g[m].end()); } else if (m2 > m) x.ns.insert(x.ns.end(), g[m2].begin(), g[m2].end()); } else if (r(4) == 0) x.expr = S("/r/") + char('a' + m) + "/i[last()]/preceding-sibling::i|" + x.expr; } } }
      int op = r(6); S ex = a[0].expr + " " + ops[op] + " " + a[1].expr; begin(ops[op], ex + " in " + xml);
      try { bool got = xp.compile_expr(ex).evaluateAsBool(doc), want = cmp(op, a[0], a[1]); if (got != want) fail("value", current() + (got ? " is true" : " is false")); }
      catch (const std::exception& x) { fail("exception", current() + " " + x.what()); } } }
  return finish(); }
