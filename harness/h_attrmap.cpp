// random histories of attribute operations on several elements against a reference model of every map
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
using namespace vh;
namespace D = Arabica::DOM;
typedef std::string S;
typedef D::Node<S> Node; typedef D::Attr<S> Attr; typedef D::Element<S> Elt; typedef D::Document<S> Doc;
typedef D::Node_impl<S, Arabica::default_string_adaptor<S> > Impl;
struct A { Attr n; int doc; S name, uri, local, value; int owner; bool dead; };
static std::vector<A> as; static std::map<Impl*, int> ids; static std::vector<Elt> es; static std::vector<int> edoc; static std::vector<std::vector<int> > maps;
static S hist;
static int id(const Node& n) { if (n == 0) return -1; auto i = ids.find(n.underlying_impl()); return i == ids.end() ? -2 : i->second; }
static int add(const Attr& n, int doc, const S& name, const S& uri, const S& local, const S& value) {
  A a; a.n = n; a.doc = doc; a.name = name; a.uri = uri; a.local = local; a.value = value; a.owner = -1; a.dead = false; as.push_back(a); ids[n.underlying_impl()] = int(as.size()) - 1; return int(as.size()) - 1; }
static bool byname(int a, const S& n) { return as[a].name == n; }
static bool byns(int a, const S& u, const S& l) { return as[a].uri == u && (as[a].local.empty() ? as[a].name : as[a].local) == l; }
template<class P> static std::vector<int> match(int e, P p) { std::vector<int> r; for (int a : maps[e]) if (p(a)) r.push_back(a); return r; }
static bool in(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static void put(int e, int a) { maps[e].push_back(a); as[a].owner = e; }
static void take(int e, int a) { auto& m = maps[e]; m.erase(std::find(m.begin(), m.end(), a)); as[a].owner = -1; }
static const char* names[] = {"a", "b", "c", "p:a", "q:a", "p:b", "xml:id"};
static const char* uris[] = {"", "urn:1", "urn:2"};
static S uriof(Rng& r, const S& q) { return q.substr(0, 3) == "xml" ? S("http://www.w3.org/XML/1998/namespace") : q.find(':') == S::npos ? S(uris[r(3)]) : S(uris[1 + r(2)]); }
static S localof(const S& q) { size_t c = q.find(':'); return c == S::npos ? q : q.substr(c + 1); }
static bool bad; static void no(const char* op, const S& why) { if (!bad) { bad = true; fail(S("attrs:") + op, hist + " => " + why); } }
static void verify(const char* op) {
  for (int e = 0; e < (int)es.size() && !bad; ++e) {
    D::NamedNodeMap<S> m = es[e].getAttributes();
    if (m.getLength() != maps[e].size()) { no(op, "element " + str(e) + " has " + str(m.getLength()) + " attributes, not " + str(maps[e].size())); return; }
    std::set<int> seen;
    for (unsigned i = 0; i < m.getLength(); ++i) { int a = id(m.item(i)); if (a < 0 || !in(maps[e], a) || !seen.insert(a).second) { no(op, "item " + str(i) + " of element " + str(e) + " is " + str(a)); return; } }
    if (m.item(m.getLength()) != 0) no(op, "item past the end");
    if (es[e].hasAttributes() != !maps[e].empty()) no(op, "hasAttributes");
    for (const char* n : names) {
      std::vector<int> w = match(e, [&](int a) { return byname(a, n); });
      Attr g = es[e].getAttributeNode(n); int gi = id(g);
      if (w.empty() ? gi != -1 : !in(w, gi)) { no(op, S("getAttributeNode ") + n + " of element " + str(e) + " is " + str(gi)); return; }
      if (es[e].hasAttribute(n) != !w.empty()) no(op, "hasAttribute");
      S v = es[e].getAttribute(n); if (v != (gi < 0 ? S() : as[gi].value)) no(op, S("getAttribute ") + n + " is " + v);
      if (id(m.getNamedItem(n)) != gi) no(op, "getNamedItem");
      for (const char* u : {"", "urn:1", "urn:2", "http://www.w3.org/XML/1998/namespace"}) {
        S l = localof(n); std::vector<int> x = match(e, [&](int a) { return byns(a, u, l); });
        int gn = id(es[e].getAttributeNodeNS(u, l));
        if (x.empty() ? gn != -1 : !in(x, gn)) { no(op, S("getAttributeNodeNS {") + u + "}" + l + " of element " + str(e) + " is " + str(gn)); return; }
        if (es[e].hasAttributeNS(u, l) != !x.empty()) no(op, "hasAttributeNS");
        if (es[e].getAttributeNS(u, l) != (gn < 0 ? S() : as[gn].value)) no(op, "getAttributeNS");
        if (id(m.getNamedItemNS(u, l)) != gn) no(op, "getNamedItemNS");
      }
    }
  }
  for (int a = 0; a < (int)as.size() && !bad; ++a) {
    Elt o = as[a].n.getOwnerElement(); int w = -1; for (int e = 0; e < (int)es.size(); ++e) if (o != 0 && o == es[e]) w = e;
    if (o != 0 && w < 0) w = -2;
    if (w != as[a].owner) no(op, "owner element of attribute " + str(a) + " is " + str(w) + " not " + str(as[a].owner));
    if (as[a].n.getValue() != as[a].value || as[a].n.getName() != as[a].name || as[a].n.getNamespaceURI() != as[a].uri) no(op, "value or name of attribute " + str(a));
  }
}
// a new attribute the element made itself: find it
static void adopt(int e, const S& name, const S& uri, const S& local, const S& value, const char* op) {
  D::NamedNodeMap<S> m = es[e].getAttributes();
  for (unsigned i = 0; i < m.getLength(); ++i) if (id(m.item(i)) == -2) { int a = add(static_cast<Attr>(m.item(i)), edoc[e], name, uri, local, value); put(e, a); return; }
  no(op, "no new attribute");
}
static void histories(Rng& r, unsigned n) {
  for (unsigned k = 0; k < n && fails().size() < 30; ++k) {
    as.clear(); ids.clear(); es.clear(); edoc.clear(); maps.clear(); hist.clear(); bad = false;
    D::DOMImplementation<S> f = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
    std::vector<Doc> docs; for (int d = 0; d < 2; ++d) { docs.push_back(f.createDocument("", "", 0)); }
    for (int i = 0; i < 4; ++i) { int d = i == 3; es.push_back(r.coin() ? docs[d].createElement("e") : docs[d].createElementNS("urn:e", "x:e")); edoc.push_back(d); maps.push_back({}); }
    begin("attribute histories", "");
    int len = r.coin(6) ? 60 : 4 + r(18); bool nsonly = r.coin(3), noons = !nsonly && r.coin(3);
    for (int s = 0; s < len && !bad; ++s) {
      int e = r(4), op = r(13); S q = names[r(7)], u = uriof(r, q), v = "v" + str(s); int code = 0; const char* on = ""; D::NamedNodeMap<S> nm = es[e].getAttributes();
      if (nsonly && (op == 1 || op == 3 || op == 6 || op == 8)) ++op; if (noons && (op == 2 || op == 4 || op == 7 || op == 9)) --op;
      std::vector<int> before;
      auto say = [&](const char* o, const S& t) { on = o; S x = S(hist.empty() ? "" : " ") + o + "(" + t + ")"; hist += x; step(x); };
      try { switch (op) {
        case 0: { int d = r(2); bool ns = nsonly || (!noons && r.coin()); say(ns ? "createNS" : "create", str(as.size()) + "," + q + "," + (ns ? u : S()) + ",doc" + str(d));
          Attr a = ns ? docs[d].createAttributeNS(u, q) : docs[d].createAttribute(q); a.setValue(v); add(a, d, q, ns ? u : S(), ns ? localof(q) : S(), v); break; }
        case 1: { say("setAttribute", str(e) + "," + q + "," + v); std::vector<int> w = match(e, [&](int a) { return byname(a, q); }); int g = id(es[e].getAttributeNode(q));
          es[e].setAttribute(q, v);
          if (w.empty()) adopt(e, q, "", "", v, on); else if (in(w, g)) as[g].value = v; break; }
        case 2: { say("setAttributeNS", str(e) + "," + u + "," + q + "," + v); std::vector<int> w = match(e, [&](int a) { return byns(a, u, localof(q)); }); int g = id(es[e].getAttributeNodeNS(u, localof(q)));
          es[e].setAttributeNS(u, q, v);
          if (g >= 0) { int now = id(es[e].getAttributeNodeNS(u, localof(q))); if (now == g) { as[g].value = v; as[g].name = q; break; } take(e, g); }
          adopt(e, q, u, localof(q), v, on); break; }
        case 3: case 4: case 10: { if (as.empty()) break; int a = r(as.size()); bool ns = op == 4 || (op == 10 && (nsonly || (!noons && r.coin())));
          say(op == 10 ? (ns ? "setNamedItemNS" : "setNamedItem") : ns ? "setAttributeNodeNS" : "setAttributeNode", str(e) + "," + str(a));
          std::vector<int> w = match(e, [&](int b) { return ns ? byns(b, as[a].uri, as[a].local.empty() ? as[a].name : as[a].local) : byname(b, as[a].name); });
          bool refuse = as[a].doc != edoc[e] || (as[a].owner >= 0 && as[a].owner != e);
          Node was = op == 10 ? (ns ? nm.setNamedItemNS(as[a].n) : nm.setNamedItem(as[a].n)) : Node(ns ? es[e].setAttributeNodeNS(as[a].n) : es[e].setAttributeNode(as[a].n));
          if (refuse) { no(on, "not refused"); break; }
          int wi = id(was);
          if (as[a].owner == e) { if (wi != -1 && wi != a) no(on, "returned " + str(wi)); break; }
          if (w.empty() ? wi != -1 : !in(w, wi)) { no(on, "returned " + str(wi)); break; }
          if (wi >= 0) take(e, wi);
          put(e, a); break; }
        case 5: { int d = edoc[e]; say("setNamedItem", str(e) + ",a text node"); Node t = docs[d].createTextNode("t"); if (r.coin()) nm.setNamedItem(t); else nm.setNamedItemNS(t); no(on, "not refused"); break; }
        case 6: case 7: { bool ns = op == 7, viamap = r.coin(); S l = localof(q); say(viamap ? (ns ? "removeNamedItemNS" : "removeNamedItem") : ns ? "removeAttributeNS" : "removeAttribute", str(e) + "," + (ns ? u + "," + l : q));
          std::vector<int> w = match(e, [&](int b) { return ns ? byns(b, u, l) : byname(b, q); }); int g = ns ? id(es[e].getAttributeNodeNS(u, l)) : id(es[e].getAttributeNode(q));
          D::NamedNodeMap<S> m = es[e].getAttributes();
          if (viamap) { Node x = ns ? m.removeNamedItemNS(u, l) : m.removeNamedItem(q); if (w.empty() || !in(w, id(x))) { no(on, "returned " + str(id(x))); break; } g = id(x); }
          else if (ns) es[e].removeAttributeNS(u, l); else es[e].removeAttribute(q);
          if (g >= 0) take(e, g);
          break; }
        case 8: case 9: case 11: { if (as.empty()) break; int a = r(as.size()); say("removeAttributeNode", str(e) + "," + str(a)); bool ok = as[a].owner == e; Attr x = es[e].removeAttributeNode(as[a].n);
          if (!ok) no(on, "not refused"); else { if (id(x) != a) no(on, "returned another"); take(e, a); } break; }
        default: { if (as.empty()) break; int a = r(as.size()); say("setValue", str(a) + "," + v); as[a].n.setValue(v); as[a].value = v; break; }
      } } catch (const D::DOMException& x) {
        code = x.code();
        bool ok = false;
        if (op == 5) ok = code == D::DOMException::HIERARCHY_REQUEST_ERR;
        else if (op == 3 || op == 4 || op == 10) { size_t c = hist.rfind(','); int a = atoi(hist.c_str() + c + 1); ok = (code == D::DOMException::WRONG_DOCUMENT_ERR && as[a].doc != edoc[e]) || (code == D::DOMException::INUSE_ATTRIBUTE_ERR && as[a].owner >= 0 && as[a].owner != e); }
        else if (op == 6 || op == 7) ok = code == D::DOMException::NOT_FOUND_ERR && (op == 7 ? match(e, [&](int b) { return byns(b, u, localof(q)); }) : match(e, [&](int b) { return byname(b, q); })).empty();
        else if (op == 8 || op == 9 || op == 11) { size_t c = hist.rfind(','); int a = atoi(hist.c_str() + c + 1); ok = code == D::DOMException::NOT_FOUND_ERR && as[a].owner != e; }
        if (!ok) no(on, "refused with code " + str(code));
      }
      if (!bad) verify(on);
      if (!bad && r.coin(8)) { // moving the elements about changes nothing about their attributes
        int p = r(4), c = r(4); try { if (p != c) { S x = " move(" + str(c) + " under " + str(p) + ")"; hist += x; step(x); es[p].appendChild(es[c]); verify("move"); } } catch (const D::DOMException&) { verify("move"); } }
      if (!bad && r.coin(10)) { // a copy has attributes of its own
        int c = r(4); S x = " clone(" + str(c) + ")"; hist += x; step(x); Elt k2 = static_cast<Elt>(es[c].cloneNode(false)); D::NamedNodeMap<S> m = k2.getAttributes();
        if (m.getLength() != maps[c].size() && match(c, [&](int a) { for (int b : maps[c]) if (b != a && (byname(b, as[a].name) || byns(b, as[a].uri, localof(as[a].name)))) return true; return false; }).empty()) no("clone", "the copy has " + str(m.getLength()) + " attributes, not " + str(maps[c].size()));
        for (unsigned i = 0; i < m.getLength(); ++i) { if (id(m.item(i)) != -2) no("clone", "the copy shares an attribute"); Attr a = static_cast<Attr>(m.item(i)); if (a.getOwnerElement() != k2) no("clone", "owner of a copied attribute"); }
        verify("clone"); }
    }
  }
}
// attributes with defaults from a document type: present unless given, back after removal
static void defaults(Rng& r, unsigned n) {
  for (unsigned k = 0; k < n && fails().size() < 30; ++k) {
    static const S an[] = {"a", "b", "c", "p:d"}; bool dec[4], given[4]; S x = "<!DOCTYPE r [<!ELEMENT r ANY><!ATTLIST r xmlns:p CDATA #IMPLIED";
    for (int i = 0; i < 4; ++i) { dec[i] = r.coin(); given[i] = r.coin(); if (dec[i]) x += " " + an[i] + " CDATA 'd" + an[i] + "'"; }
    x += ">]><r xmlns:p='urn:p'"; for (int i = 0; i < 4; ++i) if (given[i]) x += " " + an[i] + "='g" + an[i] + "'"; x += "/>";
    begin("defaults", x);
    std::istringstream is(x); Arabica::SAX::InputSource<S> src(is); Arabica::SAX2DOM::Parser<S> p; p.parse(src);
    Doc d = p.getDocument(); if (d == 0) { fail("defaults:parse", x); continue; }
    Elt e = d.getDocumentElement(); S val[4]; bool has[4];
    for (int i = 0; i < 4; ++i) { has[i] = given[i] || dec[i]; val[i] = given[i] ? "g" + an[i] : dec[i] ? "d" + an[i] : S(); }
    S h;
    for (int s = 0; s < 8; ++s) {
      for (int i = 0; i < 4; ++i) { if (e.hasAttribute(an[i]) != has[i] || e.getAttribute(an[i]) != val[i]) { fail("defaults:" + S(i == 3 && dec[3] && given[3] ? "prefixed" : s ? "after an edit" : "after parsing"), x + h + " => " + an[i] + " is '" + e.getAttribute(an[i]) + "' not '" + val[i] + "'"); s = 9; break; }
        if (has[i] && e.getAttributeNode(an[i]).getOwnerElement() != e) fail("defaults:owner", x + h); }
      if (s > 8) break;
      int i = r(4);
      if (r.coin()) { val[i] = "n" + str(s); has[i] = true; h += " set " + an[i]; e.setAttribute(an[i], val[i]); }
      else if (has[i]) { has[i] = dec[i]; val[i] = dec[i] ? "d" + an[i] : S(); h += " remove " + an[i]; if (r.coin()) e.removeAttribute(an[i]); else { Attr a = e.getAttributeNode(an[i]); e.removeAttributeNode(a); if (a.getOwnerElement() != 0) fail("defaults:owner of a removed attribute", x + h); } }
    }
  }
}
int main(int argc, char** argv) {
  Opt o = start(argc, argv); Rng r(o.seed);
  histories(r, o.n(1500, 20000));
  defaults(r, o.n(300, 4000));
  as.clear(); es.clear();
  return finish();
}
