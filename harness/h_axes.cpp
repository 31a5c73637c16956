// every axis from every node, document order and sorted node-sets, against lists computed from the tree itself
#include "common.hpp"
#include <iostream>
#include <SAX/ArabicaConfig.hpp>
#include <XPath/XPath.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <set>
#include <map>
using namespace vh;
namespace D = Arabica::DOM; namespace XP = Arabica::XPath;
typedef std::string S; typedef D::Node<S> Node; typedef std::vector<Node> L;
static bool txt(const Node& n) { int t = n.getNodeType(); return t == 3 || t == 4; }
// a run of text and CDATA is one node of the XPath tree, its first
static L kids(const Node& n) { L o; if (n.getNodeType() == 2) return o; for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) if (!(txt(c) && c.getPreviousSibling() != 0 && txt(c.getPreviousSibling()))) o.push_back(c); return o; }
static Node up(const Node& n) { if (n.getNodeType() == 2) return static_cast<D::Attr<S> >(n).getOwnerElement(); return n.getParentNode(); }
static L attrs(const Node& n) { L o; if (n.getNodeType() != 1) return o; D::NamedNodeMap<S> m = n.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) if (m.item(i).getNamespaceURI() != "http://www.w3.org/2000/xmlns/") o.push_back(m.item(i)); return o; }
static void pre(const Node& n, L& o, bool at) { o.push_back(n); if (at) for (auto& a : attrs(n)) o.push_back(a); for (auto& c : kids(n)) pre(c, o, at); }
static int at(const L& l, const Node& n) { for (unsigned i = 0; i < l.size(); ++i) if (l[i] == n) return i; return -1; }
static L ref(int ax, const Node& n, const L& order) {
  L o, d; pre(n, d, false); std::set<void*> anc; for (Node p = up(n); p != 0; p = up(p)) { anc.insert(p.underlying_impl()); }
  bool isattr = n.getNodeType() == 2; int here = at(order, n);
  switch (ax) {
    case 0: for (Node p = up(n); p != 0; p = up(p)) o.push_back(p); break;
    case 1: for (Node p = n; p != 0; p = up(p)) o.push_back(p); break;
    case 2: o = attrs(n); break;
    case 3: o = kids(n); break;
    case 4: o.assign(d.begin() + 1, d.end()); break;
    case 5: o = d; break;
    case 6: for (unsigned i = here + 1; i < order.size(); ++i) if (order[i].getNodeType() != 2 && (isattr || at(d, order[i]) < 0)) o.push_back(order[i]); break;
    case 7: if (!isattr && up(n) != 0) { L k = kids(up(n)); o.assign(k.begin() + at(k, n) + 1, k.end()); } break;
    case 9: if (up(n) != 0) o.push_back(up(n)); break;
    case 10: for (int i = here; i-- > 0;) if (order[i].getNodeType() != 2 && !anc.count(order[i].underlying_impl())) o.push_back(order[i]); break;
    case 11: if (!isattr && up(n) != 0) { L k = kids(up(n)); for (int i = at(k, n); i-- > 0;) o.push_back(k[i]); } break;
    case 12: o.push_back(n); break; }
  return o; }
static const char* axes[] = {"ancestor", "ancestor-or-self", "attribute", "child", "descendant", "descendant-or-self", "following", "following-sibling", "namespace", "parent", "preceding", "preceding-sibling", "self"};
static const XP::Axis ids[] = {XP::ANCESTOR, XP::ANCESTOR_OR_SELF, XP::ATTRIBUTE, XP::CHILD, XP::DESCENDANT, XP::DESCENDANT_OR_SELF, XP::FOLLOWING, XP::FOLLOWING_SIBLING, XP::NAMESPACE, XP::PARENT, XP::PRECEDING, XP::PRECEDING_SIBLING, XP::SELF};
static S show(const Node& n) { if (n == 0) return "(null)"; S s = n.getNodeName(); if (n.getNodeType() == 3 || n.getNodeType() == 4) s += "'" + n.getNodeValue() + "'"; return s; }
static S show(const L& l) { S s; for (auto& n : l) s += show(n) + " "; return s; }
static S xml(const Node& n) { S s; switch (n.getNodeType()) {
  case 1: { s = "<" + n.getNodeName(); D::NamedNodeMap<S> m = n.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) s += " " + m.item(i).getNodeName() + "='" + m.item(i).getNodeValue() + "'"; s += ">"; for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) s += xml(c); return s + "</>"; }
  case 3: return n.getNodeValue(); case 4: return "[" + n.getNodeValue() + "]"; case 7: return "<?p?>"; case 8: return "<!---->";
  default: for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) s += xml(c); return s; } }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed); auto di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); static const char* pf[] = {"", "p", "q", "s"}; static const char* us[] = {"urn:u", "urn:v", "urn:w"};
  for (unsigned n = 0, e = o.n(500, 8000); n < e; ++n) {
    D::Document<S> d = di.createDocument("", "", D::DocumentType<S>()); unsigned serial = 0; L els;
    auto name = [&]() { return S(1, char('a' + r(3))); };
    auto misc = [&](Node p) { if (r.coin()) p.appendChild(d.createComment("c" + str(serial++))); else p.appendChild(d.createProcessingInstruction("p", "d" + str(serial++))); };
    Node top = d; if (r(4) == 0) top = d.createDocumentFragment(); // or a tree that hangs from a fragment, as a result tree does
    while (r(3) == 0) misc(top);
    D::Element<S> root = d.createElement("r"); top.appendChild(root); els.push_back(root); while (r(3) == 0) misc(top);
    bool wide = r(6) == 0;
    for (unsigned i = 0, k = r(wide ? 40 : 14); i < k; ++i) { Node p = wide && r.coin() ? els[0] : els[r(els.size())];
      switch (r(8)) { case 0: case 1: p.appendChild(d.createTextNode("t" + str(serial++))); break; case 2: p.appendChild(d.createCDATASection("t" + str(serial++))); break; case 3: misc(p); break;
        default: { D::Element<S> x = d.createElement(name()); if (r.coin()) p.appendChild(x); else p.insertBefore(x, p.getFirstChild()); els.push_back(x); } } }
    for (auto& x : els) { D::Element<S> el(x); while (r(3) == 0) el.setAttribute(r.coin() ? name() : name() + str(r(20)), "v" + str(serial++));
      if (r(25) == 0) for (unsigned k = 0; k < 12; ++k) el.setAttributeNS("http://www.w3.org/2000/xmlns/", "xmlns:n" + str(k), us[r(3)]);
      while (r(4) == 0) { unsigned k = r(4); el.setAttributeNS("http://www.w3.org/2000/xmlns/", k ? S("xmlns:") + pf[k] : S("xmlns"), k == 0 && r(3) == 0 ? "" : us[r(3)]); } }
    L order; pre(top, order, true); std::map<void*, int> pos; for (unsigned i = 0; i < order.size(); ++i) pos[order[i].underlying_impl()] = i;
    S doc = (top == d ? S() : S("fragment ")) + xml(top); XP::XPath<S> xp;
    for (unsigned i = 0; i < order.size(); ++i) for (int a = 0; a < 13; ++a) {
      begin(axes[a], show(order[i]) + "/" + axes[a] + "::node() in " + doc); L got, want;
      if (a == 8) { // one node for each prefix in scope
        std::map<S, S> w, g; if (order[i].getNodeType() == 1) { w["xml"] = "http://www.w3.org/XML/1998/namespace"; std::set<S> seen;
          for (Node p = order[i]; p.getNodeType() == 1; p = p.getParentNode()) { D::NamedNodeMap<S> m = p.getAttributes(); for (unsigned k = 0; k < m.getLength(); ++k) { S q = m.item(k).getNodeName(); if (q.compare(0, 5, "xmlns")) continue; q = q.size() > 6 ? q.substr(6) : S(); if (seen.insert(q).second && !m.item(k).getNodeValue().empty()) w[q] = m.item(k).getNodeValue(); } } }
        unsigned cnt = 0; S t; for (XP::AxisEnumerator<S, Arabica::default_string_adaptor<S> > x(order[i], ids[a]); *x != 0; ++x) { ++cnt; Node y = *x; g[y.getLocalName()] = y.getNodeValue(); t += y.getLocalName() + "=" + y.getNodeValue() + " "; if (cnt > 100) break; }
        if (g != w || cnt != w.size()) fail("namespace", current() + " gives " + t);
        if (r(8) == 0) { XP::AxisEnumerator<S, Arabica::default_string_adaptor<S> > x(order[i], ids[a]), y(x); for (; *x != 0; ++x, ++y) if (*y == 0 || (*y).getNodeValue() != (*x).getNodeValue()) { fail("copy", current()); break; } }
        continue; }
      want = ref(a, order[i], order);
      for (XP::AxisEnumerator<S, Arabica::default_string_adaptor<S> > x(order[i], ids[a]); *x != 0; ++x) { got.push_back(*x); if (got.size() > order.size() + 3) break; }
      if (!(got == want)) { fail("axis", current() + " gives " + show(got) + "not " + show(want)); continue; }
      if (r(4) == 0) { // the same through an expression, in document order, and one node by its place on the axis
        XP::NodeSet<S> s = xp.compile_expr(S(axes[a]) + "::node()").evaluateAsNodeSet(order[i]); s.to_document_order(); L sorted = want; std::sort(sorted.begin(), sorted.end(), [&](const Node& x, const Node& y) { return pos[x.underlying_impl()] < pos[y.underlying_impl()]; });
        L es(s.begin(), s.end()); if (!(es == sorted)) fail("expression", current() + " as an expression gives " + show(es) + "not " + show(sorted));
        if (!want.empty()) { unsigned k = r(want.size()); XP::NodeSet<S> one = xp.compile_expr(S(axes[a]) + "::node()[" + str(k + 1) + "]").evaluateAsNodeSet(order[i]); if (one.size() != 1 || !(one[0] == want[k])) fail("position", current() + "[" + str(k + 1) + "]"); } } }
    { begin("fragments", doc); Node f = d.createDocumentFragment(), g = d.createDocumentFragment(); f.appendChild(d.createElement("f")); g.appendChild(d.createElement("g")); Node x = r.coin() ? f.getFirstChild() : f, y = r.coin() ? g.getFirstChild() : g;
      auto cmp = [](const Node& a, const Node& b) { return XP::impl::compareNodes<S, Arabica::default_string_adaptor<S> >(a, b); };
      if ((cmp(x, y) < 0) != (cmp(y, x) > 0) || cmp(x, y) == 0) fail("fragments", "two fragments each after the other"); if (top == d && (cmp(order[r(order.size())], x) >= 0 || cmp(x, order[r(order.size())]) <= 0)) fail("fragments", "a fragment before the document"); }
    for (int q = 0; q < 12; ++q) { // sorting, and unions of steps from several nodes
      begin("order", doc); XP::NodeSet<S> s; L w; for (unsigned k = r(20); k; --k) { const Node& x = order[r(order.size())]; s.push_back(x); if (at(w, x) < 0) w.push_back(x); } s.to_document_order();
      std::sort(w.begin(), w.end(), [&](const Node& x, const Node& y) { return pos[x.underlying_impl()] < pos[y.underlying_impl()]; }); L g(s.begin(), s.end());
      if (!(g == w)) fail("sort", current() + " sorted " + show(g) + "not " + show(w));
      int a = r(13), b = r(13); if (a == 8) a = 3; if (b == 8) b = 10; const Node& x = order[r(order.size())]; std::set<int> u; int bb = r(13); if (bb == 8) bb = 6;
      for (auto& y : ref(a, x, order)) for (auto& z : ref(bb, y, order)) u.insert(pos[z.underlying_impl()]); for (auto& z : ref(b, x, order)) u.insert(pos[z.underlying_impl()]);
      S ex = S(axes[a]) + "::node()/" + axes[bb] + "::node()|" + axes[b] + "::node()"; begin("union", show(x) + " " + ex + " in " + doc);
      XP::NodeSet<S> s2 = xp.compile_expr(ex).evaluateAsNodeSet(x); s2.to_document_order(); L g2(s2.begin(), s2.end()), w2; for (int p : u) w2.push_back(order[p]);
      if (!(g2 == w2)) fail("union", current() + " gives " + show(g2) + "not " + show(w2));
      const Node& y = order[r(order.size())]; int cm = XP::impl::compareNodes<S, Arabica::default_string_adaptor<S> >(x, y), cn = pos[x.underlying_impl()] - pos[y.underlying_impl()];
      if ((cm < 0) != (cn < 0) || (cm > 0) != (cn > 0)) fail("compare", show(x) + " and " + show(y) + " in " + doc); }
    step(""); }
  return finish(); }
