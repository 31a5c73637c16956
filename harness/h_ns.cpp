// namespace scopes: NamespaceSupport, the XSLT output's NamespaceStack and the NamespaceTracker filter
// against a plain stack of maps; and the SAX parser's names against an independent resolution
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/NamespaceSupport.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/InputSource.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <sstream>
#include <XSLT/impl/xslt_namespace_stack.hpp>
using namespace vh;
namespace AS = Arabica::SAX;
typedef std::string S;
typedef Arabica::default_string_adaptor<S> AD;
typedef AS::NamespaceSupport<S, AD> NS;
static const S XMLURI = "http://www.w3.org/XML/1998/namespace";
typedef std::vector<std::map<S, S>> Model;
static S look(const Model& m, const S& p) { for (auto i = m.rbegin(); i != m.rend(); ++i) { auto f = i->find(p); if (f != i->end()) return f->second; } return ""; }
static std::map<S, S> flat(const Model& m) { std::map<S, S> r; for (auto& c : m) for (auto& d : c) r[d.first] = d.second; return r; }
static const std::vector<S> PS = {"", "a", "b", "p", "q", "xml", "xmlns", "x"}, US = {"", "u:1", "u:2", "u:3", XMLURI};
static void checkNS(const NS& n, const Model& m, const S& h) {
  std::map<S, S> f = flat(m);
  for (auto& p : PS) if (n.getURI(p) != look(m, p)) fail("getURI", h + " => getURI(" + p + ") = " + n.getURI(p) + " expected " + look(m, p));
  std::multiset<S> all, exp;
  for (auto& p : n.getPrefixes()) all.insert(p);
  for (auto& d : f) if (!d.first.empty()) exp.insert(d.first);
  if (all != exp) fail("getPrefixes", h);
  for (auto& u : US) {
    std::multiset<S> g, e;
    for (auto& p : n.getPrefixes(u)) g.insert(p);
    for (auto& d : f) if (!d.first.empty() && d.second == u) e.insert(d.first);
    if (g != e) fail("getPrefixes-of-uri", h + " uri " + u);
    S p = n.getPrefix(u);
    if (e.empty() ? p != "" : !e.count(p)) fail("getPrefix", h + " uri " + u + " => " + p);
  }
  std::multiset<S> g, e;
  for (auto& p : n.getDeclaredPrefixes()) g.insert(p);
  for (auto& d : m.back()) e.insert(d.first);
  if (g != e) fail("getDeclaredPrefixes", h);
  for (auto& p : PS) for (int at = 0; at < 2; ++at) {
    S raw = p.empty() ? "l" : p + ":l", uri = p.empty() && at ? "" : look(m, p), gu; bool threw = false;
    if (p == "xmlns") continue;
    try { auto q = n.processName(raw, at); gu = q.namespaceUri(); if (q.localName() != "l" || q.rawName() != raw || q.prefix() != p) fail("processName-parts", h + " " + raw); }
    catch (const AS::SAXException&) { threw = true; }
    const bool bad = false; // an unbound prefix gives no namespace
    if (threw != bad || (!threw && gu != uri)) fail("processName", h + " " + raw + (at ? " attribute" : " element"));
  }
}
static void support(Rng& r, unsigned len) {
  NS n; Model m(1); m[0]["xml"] = XMLURI; S h; begin("NamespaceSupport history", "");
  checkNS(n, m, "fresh");
  for (unsigned k = 0; k < len; ++k) {
    unsigned w = r(9); S st;
    if (w < 2) { int d = r.coin(15) ? 20 + r(100) : 1; st = " push*" + std::to_string(d); while (d--) { n.pushContext(); m.push_back({}); } }
    else if (w == 2 && m.size() > 1) { st = " pop"; n.popContext(); m.pop_back(); }
    else if (w == 3 && r.coin(12)) { st = " reset"; n.reset(); m.assign(1, {}); m[0]["xml"] = XMLURI; }
    else if (w > 3) { S p = r.pick(PS), u = US[1 + r(3)]; if (r.coin(5)) u = r.pick(US); st = " decl(" + p + "," + u + ")";
      bool ok = n.declarePrefix(p, u), e = p != "xml" && p != "xmlns";
      if (ok != e) fail("declarePrefix-result", h + st); if (e) m.back()[p] = u; }
    h += st; step(st); checkNS(n, m, h);
  }
}
// the XSLT output's stack: it may give a namespace a prefix of its own choice, but whatever it
// declares must resolve, the innermost declaration wins, and leaving a scope restores what was
typedef Arabica::XSLT::NamespaceStack<S, AD> NSt;
static void xslt(Rng& r, unsigned len) {
  NSt n; Model m(1); std::vector<std::map<S, S>> saved; S h; begin("XSLT NamespaceStack history", "");
  static const std::vector<S> ps = {"", "a", "b", "p", "xmlns"}, us = {"u:1", "u:2", "u:3", "u:4"};
  for (unsigned k = 0; k < len; ++k) {
    unsigned w = r(8); S st;
    auto snap = [&]() { std::map<S, S> s; for (auto& p : ps) s["p" + p] = n.findURI(p); for (auto& u : us) s["u" + u] = n.findPrefix(u); return s; };
    if (w < 2) { st = " push"; saved.push_back(snap()); n.pushScope(); m.push_back({}); if (r.coin(15)) { for (int d = 20 + r(100); d--;) { saved.push_back(snap()); n.pushScope(); m.push_back({}); } st += "*many"; } if (snap() != saved.back()) fail("pushScope-changes", h); if (n.begin() != n.end()) fail("pushScope-not-empty", h); }
    else if (w == 2 && m.size() > 1) { st = " pop"; n.popScope(); m.pop_back(); if (snap() != saved.back()) fail("popScope-restores", h + st); saved.pop_back(); }
    else { S p = r.pick(ps), u = r.pick(us); bool at = r.coin(); st = S(at ? " attr" : " elem") + "(" + p + "," + u + ")";
      S had = n.findPrefix(u), hadu = n.findURI(p);
      n.declareNamespace(p, u, at); S got = n.findPrefix(u);
      std::map<S, S> now; for (auto i = n.begin(); i != n.end(); ++i) now[i->first] = i->second;
      std::map<S, S> was = m.back(); m.back() = now;
      for (auto& d : was) if (now.count(d.first) && now[d.first] != d.second && (at || d.first != p)) fail("declaration-overwritten", h + st);
      for (auto& d : was) if (!now.count(d.first)) fail("declaration-lost", h + st);
      if (n.findURI(got) != u) fail("declared-prefix-resolves", h + st + " prefix " + got + " => " + n.findURI(got));
      if (!had.empty() && (got != had || now != was)) fail("needless-declaration", h + st);
      if (at && got.empty()) fail("attribute-needs-a-prefix", h + st);
      if (had.empty() && p != "xmlns" && (!at || (!p.empty() && (hadu.empty() || hadu == u))) && got != p) fail("given-prefix-not-used", h + st + " => " + got); }
    h += st; step(st);
    for (auto& p : ps) if (n.findURI(p) != look(m, p)) fail("findURI", h + " prefix " + p);
    std::map<S, S> f = flat(m);
    for (auto& u : us) { S p = n.findPrefix(u); if (!p.empty() && n.findURI(p) != u) fail("findPrefix", h + " uri " + u + " => " + p);
      bool any = false; for (auto& d : f) if (!d.first.empty() && d.second == u) any = true;
      if (any && p.empty() && !(f.count("") && f[""] == u)) fail("findPrefix-missing", h + " uri " + u); }
  }
}
// SAX parser and tracker
struct El { S pfx, local; std::vector<std::pair<S, S>> decl, at; std::vector<El> kids; };
static El gen(Rng& r, Model& m, int depth) {
  El e; m.push_back({});
  static const std::vector<S> ps = {"", "a", "b", "p", "q"};
  for (unsigned k = r(3); k--;) { S p = r.pick(ps), u = US[1 + r(3)]; if (p.empty() && r.coin(4)) u = ""; if (m.back().count(p)) continue; m.back()[p] = u; e.decl.push_back({p, u}); }
  std::vector<S> bound = {""}; for (auto& d : flat(m)) if (!d.first.empty() && !d.second.empty()) bound.push_back(d.first);
  e.pfx = r.pick(bound); e.local = S(1, char('e' + r(3)));
  std::set<S> seen; std::set<std::pair<S, S>> ex;
  for (unsigned k = r(4); k--;) { S p = r.pick(bound), l(1, char('k' + r(3))), raw = p.empty() ? l : p + ":" + l; S u = p.empty() ? "" : look(m, p);
    if (!seen.insert(raw).second || !ex.insert({u, l}).second) continue; e.at.push_back({p, l}); }
  if (depth < 4) for (unsigned k = r(3); k--;) e.kids.push_back(gen(r, m, depth + 1));
  m.pop_back(); return e;
}
static void write(const El& e, S& o) {
  S q = e.pfx.empty() ? e.local : e.pfx + ":" + e.local; o += "<" + q;
  for (auto& d : e.decl) o += d.first.empty() ? " xmlns='" + d.second + "'" : " xmlns:" + d.first + "='" + d.second + "'";
  for (auto& a : e.at) o += " " + (a.first.empty() ? a.second : a.first + ":" + a.second) + "='v'";
  o += ">"; for (auto& k : e.kids) write(k, o); o += "</" + q + ">";
}
static void events(const El& e, Model& m, std::vector<S>& o) {
  m.push_back({}); std::vector<S> st, en;
  for (auto& d : e.decl) { m.back()[d.first] = d.second; st.push_back("+" + d.first + "=" + d.second); en.push_back("-" + d.first); }
  std::sort(st.begin(), st.end()); std::sort(en.begin(), en.end());
  o.insert(o.end(), st.begin(), st.end());
  S q = e.pfx.empty() ? e.local : e.pfx + ":" + e.local, n = "{" + look(m, e.pfx) + "}" + e.local + "|" + q, s = "<" + n;
  std::vector<S> as; for (auto& a : e.at) as.push_back(" {" + (a.first.empty() ? S() : look(m, a.first)) + "}" + a.second);
  std::sort(as.begin(), as.end()); for (auto& a : as) s += a;
  s += " ["; for (auto& d : flat(m)) if (!d.first.empty()) s += d.first + "=" + d.second + ";"; s += "=" + look(m, "") + "]";
  o.push_back(s); for (auto& k : e.kids) events(k, m, o); o.push_back(">" + n);
  o.insert(o.end(), en.begin(), en.end()); m.pop_back();
}
struct Rec : AS::DefaultHandler<S, AD> {
  std::vector<S> o; AS::NamespaceTracker<S, AD>* t;
  void startPrefixMapping(const S& p, const S& u) override { o.push_back("+" + p + "=" + u); }
  void endPrefixMapping(const S& p) override { o.push_back("-" + p); }
  void startElement(const S& u, const S& l, const S& q, const AS::Attributes<S, AD>& a) override {
    S s = "<{" + u + "}" + l + "|" + q; std::vector<S> as;
    for (int i = 0; i < a.getLength(); ++i) if (a.getQName(i).compare(0, 5, "xmlns")) as.push_back(" {" + a.getURI(i) + "}" + a.getLocalName(i));
    std::sort(as.begin(), as.end()); for (auto& x : as) s += x;
    s += " ["; auto ns = t->inScopeNamespaces(); S d; for (auto& n : ns) if (n.first.empty()) d = n.second; else s += n.first + "=" + n.second + ";";
    s += "=" + d + "]"; o.push_back(s); }
  void endElement(const S& u, const S& l, const S& q) override { o.push_back(">{" + u + "}" + l + "|" + q); }
};
static void norm(std::vector<S>& v) { // the order of the mapping events of one element is not fixed
  for (size_t i = 0; i < v.size();) { size_t j = i; while (j < v.size() && v[j][0] == v[i][0] && (v[i][0] == '+' || v[i][0] == '-')) ++j; if (j == i) ++i; else { std::sort(v.begin() + i, v.begin() + j); i = j; } }
}
static void parse(Rng& r) {
  Model m(1); m[0]["xml"] = XMLURI; El e = gen(r, m, 0); S doc; write(e, doc); begin("parsed document", doc);
  std::vector<S> exp; events(e, m, exp);
  AS::XMLReader<S, AD> p; AS::NamespaceTracker<S, AD> t(p); Rec h; h.t = &t; t.setContentHandler(h);
  std::istringstream is(doc); AS::InputSource<S, AD> in(is); t.parse(in);
  // the mappings of nested elements that end together: compare as sorted runs
  norm(exp); norm(h.o);
  if (h.o != exp) { S g, x; size_t k = 0; while (k < h.o.size() && k < exp.size() && h.o[k] == exp[k]) ++k;
    fail("parser-names", doc + " event " + str(k) + " got " + (k < h.o.size() ? h.o[k] : "none") + " expected " + (k < exp.size() ? exp[k] : "none")); }
}
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  for (unsigned n = o.n(1500, 12000); n--;) support(r, 3 + r(25));
  for (unsigned n = o.n(4000, 40000); n--;) xslt(r, 3 + r(20));
  for (unsigned n = o.n(2500, 30000); n--;) parse(r);
  return finish();
}
