// qualified names: splitting, refusal, binding, equality and the written-out forms
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <SAX/SAXException.hpp>
#include <XML/QName.hpp>
#include <XSLT/impl/xslt_qname.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <SAX/helpers/InputSourceResolver.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/XMLReader.hpp>
using namespace vh;
namespace X = Arabica::XML;
static bool let(long c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == 0xe9 || c == 0x3b1; }
static bool ncc(long c) { return let(c) || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '_' || c == 0xb7; }
template<class S> bool ncname(const S& s) { if (s.empty() || !(let(s[0]) || s[0] == '_')) return false; for (auto c : s) if (!ncc(c)) return false; return true; }
template<class S> S lit(const char* s) { return S(s, s + strlen(s)); }
template<class S> struct Go { typedef Arabica::default_string_adaptor<S> A; typedef X::QualifiedName<S, A> Q; typedef Arabica::XSLT::QName<S, A> XQ;
  struct M { std::map<S, S> m; S operator()(const S& p) const { auto i = m.find(p); return i == m.end() ? S() : i->second; } };
  struct E { S p, l, u, raw; bool ok; };
  static S word(Rng& r) { static const char al[] = "abZ_:-.1 /"; S s; unsigned len = r(60) ? r(7) : r(3000); unsigned sane = r(3); for (unsigned i = 0; i < len; ++i) { int k = r(12); typename S::value_type x = k < 10 ? al[k] : sizeof(x) > 1 ? (k == 10 ? 0xe9 : 0x3b1) : 'q'; if (sane && !ncc(x) && (x != ':' || r(4))) x = 'k'; s += x; } return s; }
  static E expect(const S& s, bool attr, const std::map<S, S>& m) { E e; e.raw = s; size_t k = s.find(':'); if (k == S::npos) { e.l = s; e.ok = ncname(s); auto i = m.find(S()); if (!attr && i != m.end()) e.u = i->second; }
    else { e.p = s.substr(0, k); e.l = s.substr(k + 1); e.ok = ncname(e.p) && ncname(e.l); auto i = m.find(e.p); if (i != m.end()) e.u = i->second; } return e; }
  static S clark(const E& e) { return e.u.empty() ? e.l : lit<S>("{") + e.u + lit<S>("}") + e.l; }
  static void run(Rng& r, unsigned runs, const char* what) {
    std::vector<S> uris = {S(), lit<S>("urn:1"), lit<S>("urn:2"), lit<S>("a")};
    for (unsigned n = 0; n < runs; ++n) {
      std::map<S, S> m; for (unsigned k = r(5); k--;) m[r(4) ? lit<S>(r(2) ? "a" : "b") : r(2) ? S() : word(r)] = uris[r(4)];
      std::vector<Q> qs; std::vector<E> es; std::string h;
      for (unsigned k = 0; k < 4; ++k) { S s = word(r); if (r(3) == 0 && !es.empty()) s = es.back().p + lit<S>(":") + es.back().l; bool at = r.coin(), viaM = r.coin(); E e = expect(s, at, m); h += esc(s) + " "; begin(what, h);
        if (e.ok && !e.p.empty() && r(2)) m[e.p] = uris[r(4)], e = expect(s, at, m);
        bool ok = true; try { M mm; mm.m = m; Q q = viaM ? Q::parseQName(s, at, mm) : Q::parseQName(s, at, m);
          if (e.ok) { if (q.prefix() != e.p || q.localName() != e.l) fail("split", h); if (q.namespaceUri() != e.u) fail("binding", h + (at ? "(attribute)" : "(element)")); if (q.rawName() != s || q.has_prefix() != !e.p.empty() || q.has_namespaceUri() != !e.u.empty() || q.has_rawName() != !s.empty()) fail("raw", h);
            if (q.clarkName() != clark(e)) fail("clark", h); qs.push_back(q); es.push_back(e); }
        } catch (const std::runtime_error&) { ok = false; } if (ok != e.ok) fail(ok ? "accepted" : "refused", h);
        // the stylesheet's names
        ok = true; try { S u = uris[r(4)]; bool two = r.coin(); XQ q = two ? XQ::create(s, u) : XQ::create(s); if (q.prefix != e.p || q.localName != e.l || q.namespaceURI != (two ? u : S()) || q.qname != s) fail("xslt name", h); } catch (const Arabica::SAX::SAXException&) { ok = false; } if (ok != e.ok) fail(ok ? "xslt accepted" : "xslt refused", h); }
      for (size_t i = 0; i < qs.size(); ++i) {
        bool ok = true, want = es[i].p.empty() || !es[i].u.empty(); try { XQ q = XQ::create(qs[i]); if (q.prefix != es[i].p || q.localName != es[i].l || q.namespaceURI != es[i].u || q.qname != es[i].raw) fail("xslt from qualified", h); } catch (const Arabica::SAX::SAXException&) { ok = false; } if (ok != want) fail("xslt undeclared prefix", h);
        Q c(qs[i]), d(qs[0]); d = qs[i]; for (const Q* x : {&c, &d}) if (x->prefix() != es[i].p || x->localName() != es[i].l || x->namespaceUri() != es[i].u || x->rawName() != es[i].raw) fail("copy", h);
        for (size_t j = 0; j < qs.size(); ++j) { bool eq = es[i].l == es[j].l && es[i].u == es[j].u; if ((qs[i] == qs[j]) != eq || (qs[i] != qs[j]) == eq) fail("equality", h);
          XQ a(es[i].p, es[i].l, es[i].u), b(es[j].p, es[j].l, es[j].u); if ((a == b) != eq) fail("xslt equality", h); if (a < b && b < a) fail("xslt order", h); if (!eq && !(a < b) && !(b < a)) fail("xslt order", h); if (eq && (a < b)) fail("xslt order", h); } } } } };
// the reader reports names as the document's bindings say
struct H : Arabica::SAX::DefaultHandler<std::string> { std::string out; 
  void startElement(const std::string& u, const std::string& l, const std::string& q, const AttributesT& a) { out += "<{" + u + "}" + l + "|" + q; std::set<std::string> s; for (int i = 0; i < (int)a.getLength(); ++i) if (a.getQName(i) != "xmlns" && a.getQName(i).compare(0, 6, "xmlns:")) s.insert(" {" + a.getURI(i) + "}" + a.getLocalName(i) + "|" + a.getQName(i)); for (auto& x : s) out += x; out += ">"; }
  void endElement(const std::string& u, const std::string& l, const std::string& q) { out += "</{" + u + "}" + l + "|" + q + ">"; } };
static void gen(Rng& r, std::map<std::string, std::string> b, unsigned depth, std::string& doc, std::string& want) {
  std::string decl; for (unsigned k = r(3); k--;) { std::string p = r(3) ? r(2) ? "a" : "b" : ""; std::string u = r(2) ? "urn:1" : "urn:2"; if (decl.find(" xmlns" + (p.empty() ? "" : ":" + p) + "=") != std::string::npos) continue; decl += " xmlns" + (p.empty() ? "" : ":" + p) + "='" + u + "'"; b[p] = u; }
  auto nm = [&](std::string& p) { p = r(2) ? "" : r(2) ? "a" : "b"; if (!p.empty() && !b.count(p)) p = ""; std::string l = r(2) ? "x" : "y-1"; return p.empty() ? l : p + ":" + l; };
  std::string p, q = nm(p); std::string name = "{" + (b.count(p) ? b[p] : "") + "}" + (p.empty() ? q : q.substr(p.size() + 1)) + "|" + q;
  std::set<std::string> at, raw, ex; for (unsigned k = r(3); k--;) { std::string ap, aq = nm(ap); std::string l = ap.empty() ? aq : aq.substr(ap.size() + 1), e = "{" + (ap.empty() ? "" : b[ap]) + "}" + l; if (!ex.insert(e).second) continue; raw.insert(aq); at.insert(" " + e + "|" + aq); }
  doc += "<" + q + decl; for (auto& a : raw) doc += " " + a + "='v'"; doc += ">"; want += "<" + name; for (auto& a : at) want += a; want += ">";
  if (depth) for (unsigned k = r(3); k--;) gen(r, b, depth - 1, doc, want);
  doc += "</" + q + ">"; want += "</" + name + ">"; }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  Go<std::string>::run(r, o.n(40000, 600000), "byte names"); Go<std::wstring>::run(r, o.n(20000, 300000), "wide names");
  for (unsigned n = 0, e = o.n(1500, 20000); n < e; ++n) { std::string d, w; gen(r, {}, 3, d, w); begin("documents", d); Arabica::SAX::XMLReader<std::string> p; H h; p.setContentHandler(h); std::istringstream is(d); Arabica::SAX::InputSource<std::string> src(is); p.parse(src); if (h.out != w) fail("reader", d + " => " + h.out); }
  return finish(); }
