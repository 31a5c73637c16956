// character data edits, splitText and normalize against std::string arithmetic
#include "common.hpp"
#include <climits>
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
using namespace vh;
namespace D = Arabica::DOM;
typedef std::string S; typedef D::Node<S> Node;
struct Ops { std::function<S()> get; std::function<void(S)> set, append; std::function<int()> len; std::function<S(int, int)> sub; std::function<void(int, S)> ins; std::function<void(int, int)> del; std::function<void(int, int, S)> rep; };
template<class T> Ops ops(T t) { Ops o; o.get = [=]() { return t.getData(); }; o.set = [=](S s) mutable { t.setData(s); }; o.append = [=](S s) mutable { t.appendData(s); }; o.len = [=]() { return t.getLength(); };
  o.sub = [=](int a, int b) { return t.substringData(a, b); }; o.ins = [=](int a, S s) mutable { t.insertData(a, s); }; o.del = [=](int a, int b) mutable { t.deleteData(a, b); }; o.rep = [=](int a, int b, S s) mutable { t.replaceData(a, b, s); }; return o; }
static std::string words[] = {"", "a", "bc", "xyz", std::string("\0q", 2), "0123456789", "\xc3\xa9"};
static int offs(Rng& r, int len) { switch (r(12)) { case 0: return -1; case 1: return INT_MIN; case 2: return INT_MAX; case 3: return len; case 4: return len + 1; case 5: return -int(r(5)) - 1; case 6: return len > 0 ? len - 1 : 0; default: return int(r(len + 1)); } }
static int cnts(Rng& r, int len) { switch (r(12)) { case 0: return -1; case 1: return INT_MIN; case 2: return INT_MAX; case 3: return len; case 4: return len + 1; case 5: return INT_MAX - int(r(len + 1)); default: return int(r(len + 2)); } }
static S cut(const S& s, int o, int c) { return long(o) + c >= (long)s.size() ? s.substr(0, o) : s.substr(0, o) + s.substr(o + c); }
static S piece(const S& s, int o, int c) { return long(o) + c >= (long)s.size() ? s.substr(o) : s.substr(o, c); }
static S shape(const Node& n) { S s; for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) { s += char('A' + c.getNodeType()); s += c.getNodeValue() + "(" + shape(c) + ")"; } return s; }
// what normalize should leave
struct Mn { int k; S v; std::vector<Mn> kids; };
static S mshape(const std::vector<Mn>& k) { S s; for (auto& c : k) s += S(1, char('A' + c.k)) + c.v + "(" + mshape(c.kids) + ")"; return s; }
static void mnorm(std::vector<Mn>& k) { std::vector<Mn> o; for (auto& c : k) { if (c.k == 3) { if (!o.empty() && o.back().k == 3) o.back().v += c.v; else o.push_back(c); } else { o.push_back(c); mnorm(o.back().kids); } }
  k.clear(); for (auto& c : o) if (!(c.k == 3 && c.v.empty())) k.push_back(c); }
static void build(Rng& r, D::Document<S>& d, Node p, std::vector<Mn>& m, int depth) {
  unsigned n = r(7); for (unsigned i = 0; i < n; ++i) { unsigned k = r(8); S v = words[r(7)]; if (k < 4) { p.appendChild(d.createTextNode(v)); m.push_back(Mn{3, v, {}}); } else if (k == 4) { p.appendChild(d.createCDATASection(v)); m.push_back(Mn{4, v, {}}); }
    else if (k == 5) { p.appendChild(d.createComment(v)); m.push_back(Mn{8, v, {}}); } else { Node e = d.createElement("e"); p.appendChild(e); m.push_back(Mn{1, "", {}}); if (depth) build(r, d, e, m.back().kids, depth - 1); } } }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed); auto di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  D::Document<S> doc = di.createDocument("", "", D::DocumentType<S>());
  unsigned runs = o.n(4000, 60000);
  for (unsigned n = 0; n < runs; ++n) {
    S data = words[r(7)] + words[r(7)] + words[r(7)]; S hist = str(data.size()) + " bytes '" + data + "'"; begin("character-data history", hist);
    int kind = r(3); Node par = doc.createElement("p"); Node before = doc.createComment("b"), after = doc.createComment("a"); Node nd; Ops q;
    if (kind == 0) { auto t = doc.createTextNode(data); nd = t; q = ops(t); } if (kind == 1) { auto t = doc.createCDATASection(data); nd = t; q = ops(t); } if (kind == 2) { auto t = doc.createComment(data); nd = t; q = ops(t); }
    bool attached = r.coin(); bool sib = r.coin(); if (attached) { if (sib) par.appendChild(before); par.appendChild(nd); if (sib) par.appendChild(after); }
    for (unsigned k = 0, e = 1 + r(10); k < e; ++k) {
      int len = (int)data.size(); int of = offs(r, len), cn = cnts(r, len); S w = words[r(7)]; unsigned what = r(8); bool threw = false; int code = 0; const char* op = "?";
      bool bad = of < 0 || of > len, badc = bad || cn < 0; bool expect = false; S nw = data, got;
      char b[96]; snprintf(b, sizeof b, "; op%u(%d,%d,%u bytes)", what, of, cn, (unsigned)w.size()); hist += b; step(b);
      try { switch (what) {
        case 0: op = "setData"; nw = w; q.set(w); break;
        case 1: op = "appendData"; nw = data + w; if (r(6) == 0) { nw = data + data; if (kind == 0) { D::Text<S> t(nd); t.appendData(t.getData()); } else q.append(data); } else q.append(w); break;
        case 2: op = "insertData"; expect = bad; if (!bad) nw = data.substr(0, of) + w + data.substr(of); q.ins(of, w); break;
        case 3: op = "deleteData"; expect = badc; if (!badc) nw = cut(data, of, cn); q.del(of, cn); break;
        case 4: op = "replaceData"; expect = badc; if (!badc) { S rest = long(of) + cn >= len ? S() : data.substr(of + cn); nw = data.substr(0, of) + w + rest; } q.rep(of, cn, w); break;
        case 5: op = "substringData"; expect = badc; got = q.sub(of, cn); if (!badc && got != piece(data, of, cn)) fail("substringData", hist + " got " + got); break;
        case 6: op = "nodeValue"; nw = w; nd.setNodeValue(w); break;
        case 7: { if (kind == 2) continue; op = "splitText"; expect = bad; Node s; if (!bad) nw = data.substr(0, of); if (kind == 0) s = D::Text<S>(nd).splitText(of); else s = D::CDATASection<S>(nd).splitText(of);
          if (!bad) { if (s.getNodeValue() != data.substr(of) || s.getNodeType() != nd.getNodeType() || !(s.getOwnerDocument() == doc)) fail("splitText-second-part", hist);
            if (attached) { if (!(nd.getNextSibling() == s) || !(s.getPreviousSibling() == nd) || !(s.getParentNode() == par) || (sib ? !(par.getLastChild() == after) : false)) fail("splitText-siblings", hist); }
            else if (!(s.getParentNode() == 0) || !(nd.getNextSibling() == 0)) fail("splitText-unattached", hist); }
          break; }
      } } catch (const D::DOMException& x) { threw = true; code = x.code(); }
      if (threw != expect) fail(std::string(op) + (threw ? "-refused" : "-accepted"), hist);
      if (threw && code != D::DOMException::INDEX_SIZE_ERR) fail(std::string(op) + "-error-code", hist);
      if (!threw) data = nw;
      if (q.get() != data || nd.getNodeValue() != data || q.len() != (int)data.size()) { fail(std::string("data-after-") + op, hist + " => '" + q.get() + "' expected '" + data + "'"); break; }
    }
  }
  for (unsigned n = 0; n < o.n(2500, 30000); ++n) {
    begin("normalize", ""); Node p = doc.createElement("root"); std::vector<Mn> m; build(r, doc, p, m, 2); step(shape(p));
    if (shape(p) != mshape(m)) fail("build", shape(p)); S b = shape(p); if (r.coin()) { D::Element<S> pe(p); auto a = doc.createAttribute("a"); a.appendChild(doc.createTextNode("x")); a.appendChild(doc.createTextNode("")); a.appendChild(doc.createTextNode("y")); pe.setAttributeNode(a); }
    p.normalize(); mnorm(m); if (shape(p) != mshape(m)) fail("normalize", b + " => " + shape(p) + " expected " + mshape(m));
    D::Element<S> pe(p); if (pe.hasAttribute("a") && (pe.getAttributeNode("a").getChildNodes().getLength() != 1 || pe.getAttribute("a") != "xy")) fail("normalize-attribute", b);
  }
  return finish();
}
