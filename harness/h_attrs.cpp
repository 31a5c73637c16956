// SAX attribute lists against a plain vector of records
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
using namespace vh;
typedef Arabica::SAX::AttributesImpl<std::string> AI;
typedef Arabica::SAX::Attributes<std::string> AB;
struct R { std::string f[5]; bool operator==(const R& o) const { for (int i = 0; i < 5; ++i) if (f[i] != o.f[i]) return false; return true; } };
typedef std::vector<R> Model;
static std::string show(const Model& m) { std::string s = "["; for (auto& r : m) { s += "("; for (auto& x : r.f) s += x + ","; s += ")"; } return s + "]"; }
static Model read(const AB& a) {
  Model m; for (int i = 0; i < a.getLength(); ++i) m.push_back(R{{a.getURI(i), a.getLocalName(i), a.getQName(i), a.getType(i), a.getValue(i)}}); return m; }
static const char* us[] = {"", "u", "urn:u", "u2"}; static const char* ls[] = {"", "a", "b", "ab"}; static const char* qs[] = {"", "a", "p:a", "b", "q:b"};
static const char* ts[] = {"CDATA", "ID", ""}; static const char* vs[] = {"", "1", "two", "x\0y"};
static void check(const char* op, const AI& a, const Model& m, const std::string& hist) {
  Model g = read(a);
  if (!(g == m)) fail(std::string("list-after-") + op, hist + " => got " + show(g) + " expected " + show(m));
  // lookups
  for (auto u : us) for (auto l : ls) {
    int e = -1; for (int i = 0; i < (int)m.size(); ++i) if (m[i].f[0] == u && m[i].f[1] == l) { e = i; break; }
    if (a.getIndex(u, l) != e) fail("index-by-name", hist + " {" + u + "}" + l);
    if (a.getType(u, l) != (e < 0 ? "" : m[e].f[3])) fail("type-by-name", hist + " {" + u + "}" + l);
    if (a.getValue(u, l) != (e < 0 ? "" : m[e].f[4])) fail("value-by-name", hist + " {" + u + "}" + l);
  }
  for (auto q : qs) {
    int e = -1; for (int i = 0; i < (int)m.size(); ++i) if (m[i].f[2] == q) { e = i; break; }
    if (a.getIndex(q) != e) fail("index-by-qname", hist + " " + q);
    if (a.getType(std::string(q)) != (e < 0 ? "" : m[e].f[3])) fail("type-by-qname", hist + " " + q);
    if (a.getValue(std::string(q)) != (e < 0 ? "" : m[e].f[4])) fail("value-by-qname", hist + " " + q);
  }
  for (unsigned i : {(unsigned)m.size(), (unsigned)m.size() + 1, 0x7fffffffu, 0xffffffffu})
    if (a.getURI(i) != "" || a.getLocalName(i) != "" || a.getQName(i) != "" || a.getType(i) != "" || a.getValue(i) != "") fail("out-of-range-read", hist + " index " + str(i));
}
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  unsigned runs = o.n(3000, 40000);
  for (unsigned n = 0; n < runs; ++n) {
    AI a; Model m; std::string hist; begin("attribute-list history", "");
    unsigned len = 1 + r(n % 7 == 0 ? 40 : 12);
    for (unsigned k = 0; k < len; ++k) {
      R x{{us[r(4)], ls[r(4)], qs[r(5)], ts[r(3)], r.coin() ? std::string("x\0y", 3) : std::string(vs[r(3)])}};
      unsigned idx = r(6) ? (m.empty() ? r(2) : r((unsigned)m.size() + 1)) : (r.coin() ? 0xffffffffu : 0x80000000u);
      bool in = idx < m.size(), threw = false; const char* op = "?"; char b[64];
      unsigned what = r(14);
      snprintf(b, sizeof b, " op%u@%d", what, (int)idx); hist += b; step(b);
      try { switch (what) {
        case 0: case 1: case 2: op = "addAttribute"; a.addAttribute(x.f[0], x.f[1], x.f[2], x.f[3], x.f[4]); m.push_back(x); break;
        case 3: { op = "addAttribute-record"; a.addAttribute(AI::Attr(x.f[0], x.f[1], x.f[2], x.f[3], x.f[4])); m.push_back(x); break; }
        case 4: case 5: { op = "addOrReplaceAttribute"; a.addOrReplaceAttribute(x.f[0], x.f[1], x.f[2], x.f[3], x.f[4]); bool d = false;
          for (auto& y : m) if (y.f[0] == x.f[0] && y.f[1] == x.f[1]) { y.f[4] = x.f[4]; d = true; break; } if (!d) m.push_back(x); break; }
        case 6: op = "removeAttribute"; a.removeAttribute(idx); if (in) m.erase(m.begin() + idx); break;
        case 7: op = "setAttribute"; a.setAttribute(idx, x.f[0], x.f[1], x.f[2], x.f[3], x.f[4]); if (in) m[idx] = x; break;
        case 8: { op = "setField"; unsigned f = r(5); const std::string& s = x.f[f];
          if (f == 0) a.setURI(idx, s); if (f == 1) a.setLocalName(idx, s); if (f == 2) a.setQName(idx, s); if (f == 3) a.setType(idx, s); if (f == 4) a.setValue(idx, s);
          if (in) m[idx].f[f] = s; break; }
        case 9: if (r.coin(4)) { op = "clear"; a.clear(); m.clear(); } in = true; break;
        case 10: { op = "copy-construct"; AI b(static_cast<const AB&>(a)); AI d(b); if (!(d == a) || !(b == a)) fail("copy-not-equal", hist); b.addAttribute("z", "z", "z", "z", "z"); if (b == a) fail("equality", hist); a = d; break; }
        case 11: { op = "assign"; AI b; b.addAttribute("z", "z", "z", "z", "z"); const AB& ab = a; AI& ret = (b = ab); if (&ret != &b) fail("assignment-result", hist); check("assign", b, m, hist); break; }
        case 12: { op = "setAttributes-self"; a.setAttributes(a); break; }
        case 13: { op = "setAttributes"; AI b; b.addAttribute("z", "z", "z", "z", "z"); b.setAttributes(a); check("setAttributes", b, m, hist); break; }
      } } catch (const std::out_of_range&) { threw = true; }
      bool indexed = what == 6 || what == 7 || what == 8;
      if (indexed && threw == in) fail(std::string("range-check-") + op, hist);
      if (!indexed && threw) fail(std::string("unexpected-throw-") + op, hist);
      check(op, a, m, hist);
    }
  }
  return finish();
}
