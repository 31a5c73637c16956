// live element lists against a walk of the tree at the time of the question
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
using namespace vh;
namespace D = Arabica::DOM;
typedef std::string S; typedef D::Node<S> Node; typedef D::Element<S> El;
static const S star = "*"; static const char* names[] = {"a", "b", "p:a", "q:a", "c", "abc", "A"}; static const char* uris[] = {"urn:u", "urn:v", "", "*"}; static const char* locals[] = {"a", "b", "c", "abc"};
struct Q { bool ns; S uri, name; Node root; D::NodeList<S> list; S text; };
static void walk(const Node& n, const Q& q, std::vector<Node>& o) {
  for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) if (c.getNodeType() == 1) {
    bool m = q.ns ? (q.uri == star || (c.hasNamespaceURI() && c.getNamespaceURI() == q.uri)) && (q.name == star || c.getLocalName() == q.name) : q.name == star || c.getNodeName() == q.name;
    if (m) o.push_back(c); walk(c, q, o); } }
static Q ask(Rng& r, D::Document<S>& d, std::vector<El>& els) {
  Q q; q.ns = r.coin(); q.uri = r(3) ? uris[r(2)] : uris[r(2) ? 3 : 2]; q.name = r(4) == 0 ? star : q.ns ? S(locals[r(4)]) : S(names[r(7)]);
  if (r.coin(3)) { q.root = d; q.list = q.ns ? d.getElementsByTagNameNS(q.uri, q.name) : d.getElementsByTagName(q.name); }
  else { El e = els[r(els.size())]; q.root = e; q.list = q.ns ? e.getElementsByTagNameNS(q.uri, q.name) : e.getElementsByTagName(q.name); }
  q.text = (q.ns ? "{" + q.uri + "}" : S()) + q.name + " below " + (q.root == d ? S("document") : q.root.getNodeName()); return q; }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed); auto di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  for (unsigned n = 0, e = o.n(2500, 40000); n < e; ++n) {
    begin("list history", ""); D::Document<S> d = di.createDocument("", "", D::DocumentType<S>()); El root = d.createElement("root"); d.appendChild(root);
    std::vector<El> els(1, root); std::vector<Q> qs; unsigned scale = r(10) == 0 ? 80 : 12;
    auto make = [&]() { if (r.coin()) return d.createElement(names[r(7)]); const char* u = uris[r(2)]; return d.createElementNS(u, r.coin() ? S(locals[r(4)]) : S("p:") + locals[r(4)]); };
    for (unsigned i = 0; i < scale; ++i) { El x = make(); els[r(els.size())].appendChild(x); els.push_back(x); }
    for (unsigned k = 0, m = 4 + r(40); k < m; ++k) {
      if (qs.size() < 6 && r(4) == 0) { qs.push_back(ask(r, d, els)); step("; ask " + qs.back().text); }
      El a = els[r(els.size())], b = els[r(els.size())]; unsigned op = r(9); if (r(40) == 0) op = 9; S what;
      try { switch (op) {
        case 0: { what = "append new"; El x = make(); a.appendChild(x); els.push_back(x); break; }
        case 1: what = "insert before"; a.insertBefore(b, a.getFirstChild()); break;
        case 2: what = "remove"; if (!(a == root) && a.getParentNode() != 0) a.getParentNode().removeChild(a); break;
        case 3: { what = "replace"; El x = make(); if (!(a == root) && a.getParentNode() != 0) { a.getParentNode().replaceChild(x, a); els.push_back(x); } break; }
        case 4: { what = "fragment"; D::DocumentFragment<S> f = d.createDocumentFragment(); for (unsigned i = 0; i < 3; ++i) { El x = make(); f.appendChild(x); els.push_back(x); } a.insertBefore(f, a.getFirstChild()); break; }
        case 5: what = "setPrefix"; if (a.hasNamespaceURI()) a.setPrefix(r.coin() ? "q" : r.coin() ? "p" : ""); break;
        case 6: { what = "text"; a.appendChild(d.createTextNode("t")); a.normalize(); break; }
        case 7: { what = "clone"; Node x = a.cloneNode(true); b.appendChild(x); els.push_back(El(x)); break; }
        case 9: { what = "burst"; bool huge = r(20) == 0; El x[3]; for (auto& y : x) y = make(); a.appendChild(x[0]); // as many equal changes as fill a counter
          for (auto& q : qs) { q.list.getLength(); q.list.item(0); }
          for (unsigned i = 0, e = huge ? 65536 : 256; i < e; ++i) a.replaceChild(x[(i + 1) % 3], x[i % 3]); for (auto& y : x) els.push_back(y); break; }
        case 8: what = "swap root"; if (r(3) == 0) { El x = make(); d.replaceChild(x, root); x.appendChild(root); els.push_back(x); root = x; } break;
      } } catch (const D::DOMException&) { what += " refused"; }
      step("; " + what + " " + a.getNodeName());
      if (r(3) == 0) continue;
      for (auto& q : qs) { if (r(4) == 0) continue;
        std::vector<Node> x; walk(q.root, q, x); unsigned first = r(3);
        if (first == 0) { unsigned i = r(x.size() + 2); Node g = q.list.item(i); if (!(i < x.size() ? g == x[i] : g == 0)) { fail("item", current() + "; item " + str(i) + " of " + q.text); break; } }
        if (q.list.getLength() != x.size()) { fail("length", current() + "; length of " + q.text + " " + str(q.list.getLength()) + " expected " + str(x.size())); break; }
        for (unsigned i = 0; i < x.size(); ++i) if (!(q.list.item(i) == x[i])) { fail("order", current() + "; item " + str(i) + " of " + q.text); break; }
        if (!(q.list.item(x.size()) == 0) || !(q.list.item(0xFFFFFFFFu) == 0)) { fail("beyond", current() + "; " + q.text); break; }
      }
      if (!fails().empty()) break;
    }
  }
  return finish();
}
