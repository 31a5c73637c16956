// random DOM edit histories against a reference tree
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
using namespace vh;
namespace D = Arabica::DOM;
typedef std::string S;
typedef D::Node<S> Node;
typedef D::Document<S> Doc;
typedef D::Node_impl<S, Arabica::default_string_adaptor<S> > Impl;
enum K { DOC, ELT, TXT, COM, CDA, PI, FRAG, DT, ATTR, EREF, NK };
static const int types[] = {D::Node_base::DOCUMENT_NODE, D::Node_base::ELEMENT_NODE, D::Node_base::TEXT_NODE, D::Node_base::COMMENT_NODE, D::Node_base::CDATA_SECTION_NODE,
  D::Node_base::PROCESSING_INSTRUCTION_NODE, D::Node_base::DOCUMENT_FRAGMENT_NODE, D::Node_base::DOCUMENT_TYPE_NODE, D::Node_base::ATTRIBUTE_NODE, D::Node_base::ENTITY_REFERENCE_NODE};
struct M { K k; int doc; int parent; std::vector<int> kids; bool ro; Node n; };
static std::vector<M> ms; static std::map<Impl*, int> ids;
static std::string hist;
static int add(K k, int doc, const Node& n) { M m; m.k = k; m.doc = doc; m.parent = -1; m.ro = k == EREF; m.n = n; ms.push_back(m); ids[n.underlying_impl()] = int(ms.size()) - 1; return int(ms.size()) - 1; }
static int id(const Node& n) { if (n == 0) return -1; auto i = ids.find(n.underlying_impl()); return i == ids.end() ? -2 : i->second; }
static bool okchild(K p, K c) {
  switch (p) {
    case DOC: return c == ELT || c == PI || c == COM || c == DT;
    case ELT: case FRAG: case EREF: return c == ELT || c == TXT || c == COM || c == PI || c == CDA || c == EREF;
    case ATTR: return c == TXT || c == EREF;
    default: return false;
  }
}
static bool container(K k) { return k == DOC || k == ELT || k == FRAG || k == ATTR || k == EREF || k == DT; }
static bool inside(int n, int anc) { for (; n != -1; n = ms[n].parent) if (n == anc) return true; return false; }
static int elt(int d) { for (int c : ms[d].kids) if (ms[c].k == ELT) return c; return -1; }
static int dtype(int d) { for (int c : ms[d].kids) if (ms[c].k == DT) return c; return -1; }
static std::string show(int i) { std::string s = str(i) + ":" + str(ms[i].k); if (!ms[i].kids.empty()) { s += "("; for (int c : ms[i].kids) s += show(c) + " "; s += ")"; } return s; }
static void unlink(int c) { int p = ms[c].parent; if (p >= 0) { auto& k = ms[p].kids; k.erase(std::find(k.begin(), k.end(), c)); } ms[c].parent = -1; }
static void link(int p, int c, int ref) { unlink(c); auto& k = ms[p].kids; k.insert(ref < 0 ? k.end() : std::find(k.begin(), k.end(), ref), c); ms[c].parent = p; if (ms[c].doc < 0) ms[c].doc = ms[p].doc; }
// may one node be put below p, replacing old (or -1)?
static bool may(int p, int c, int old) {
  if (ms[p].ro) return false;
  if (!okchild(ms[p].k, ms[c].k)) return false;
  if (ms[c].doc >= 0 && ms[c].doc != ms[p].doc) return false;
  if (inside(p, c)) return false;
  if (ms[c].parent >= 0 && ms[ms[c].parent].ro) return false;
  if (ms[p].k == DOC) {
    if (ms[c].k == ELT && elt(p) >= 0 && elt(p) != old && elt(p) != c) return false;
    if (ms[c].k == DT && dtype(p) >= 0) return false;
  }
  return true;
}
static void verify(const char* op) {
  std::string w = hist; bool bad = false; std::string why;
  auto no = [&](const std::string& s) { if (!bad) { bad = true; why = s; } };
  for (int i = 0; i < (int)ms.size() && !bad; ++i) {
    M& m = ms[i];
    if (m.n.getNodeType() != types[m.k]) no("type of " + str(i));
    if (id(m.n.getParentNode()) != m.parent) no("parent of " + str(i) + " is " + str(id(m.n.getParentNode())) + " not " + str(m.parent));
    if (m.k != DOC && id(m.n.getOwnerDocument()) != m.doc) no("owner document of " + str(i));
    if (m.n.hasChildNodes() != !m.kids.empty()) no("hasChildNodes of " + str(i));
    if (id(m.n.getFirstChild()) != (m.kids.empty() ? -1 : m.kids.front())) no("first child of " + str(i));
    if (id(m.n.getLastChild()) != (m.kids.empty() ? -1 : m.kids.back())) no("last child of " + str(i));
    if (container(m.k) && m.k != DT) {
      D::NodeList<S> l = m.n.getChildNodes();
      if (l.getLength() != m.kids.size()) no("child count of " + str(i) + " is " + str(l.getLength()) + " not " + str(m.kids.size()));
      else for (unsigned j = 0; j < m.kids.size(); ++j) if (id(l.item(j)) != m.kids[j]) no("child " + str(j) + " of " + str(i));
      if (!(l.item(unsigned(m.kids.size())) == 0) || !(l.item(0xffffffffu) == 0)) no("item past the end of " + str(i));
    }
    int ps = -1, ns = -1;
    if (m.parent >= 0) { auto& k = ms[m.parent].kids; auto q = std::find(k.begin(), k.end(), i); if (q != k.begin()) ps = *(q - 1); if (q + 1 != k.end()) ns = *(q + 1); }
    if (id(m.n.getPreviousSibling()) != ps) no("previous sibling of " + str(i) + " is " + str(id(m.n.getPreviousSibling())) + " not " + str(ps));
    if (id(m.n.getNextSibling()) != ns) no("next sibling of " + str(i) + " is " + str(id(m.n.getNextSibling())) + " not " + str(ns));
    if (m.k == DOC) { Doc d(m.n);
      if (id(d.getDocumentElement()) != elt(i)) no("document element of " + str(i) + " is " + str(id(d.getDocumentElement())) + " not " + str(elt(i)));
      if (id(d.getDoctype()) != dtype(i)) no("doctype of " + str(i)); }
  }
  if (bad) { std::string t; for (int i = 0; i < (int)ms.size(); ++i) if (ms[i].parent < 0 && (!ms[i].kids.empty())) t += " " + show(i); fail(std::string("tree-after-") + op, hist + " => " + why + "; expected" + t); }
}
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  unsigned runs = o.n(1500, 25000);
  auto di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  for (unsigned n = 0; n < runs; ++n) {
    ms.clear(); ids.clear(); hist = ""; begin("dom-edit history", ""); size_t before = fails().size();
    int nd = 1 + r(5) / 4; ms.reserve(64);
    for (int d = 0; d < nd; ++d) add(DOC, d, di.createDocument("", "", D::DocumentType<S>()));
    for (int d = 0; d < nd; ++d) ms[d].doc = d;
    int pop = 6 + r(n % 5 == 0 ? 22 : 8);
    for (int i = 0; i < pop; ++i) {
      int d = r(8) ? 0 : r(nd); Doc doc(ms[d].n); unsigned k = r(20);
      if (k < 9) add(ELT, d, doc.createElement("e")); else if (k < 13) add(TXT, d, doc.createTextNode("t")); else if (k == 13) add(COM, d, doc.createComment("c"));
      else if (k == 14) add(CDA, d, doc.createCDATASection("d")); else if (k == 15) add(PI, d, doc.createProcessingInstruction("p", "i")); else if (k <= 17) add(FRAG, d, doc.createDocumentFragment());
      else if (k == 18) add(DT, -1, di.createDocumentType("dt", "", "")); else add(r.coin() ? ATTR : EREF, d, r.coin() ? Node() : Node());
      if (ms.back().n == 0) { K kk = ms.back().k; ids.erase((Impl*)0); ms.pop_back(); if (kk == ATTR) add(ATTR, d, doc.createAttribute("a")); else add(EREF, d, doc.createEntityReference("r")); }
    }
    unsigned len = 8 + r(30);
    for (unsigned s = 0; s < len && fails().size() == before; ++s) {
      int p = r(3) ? r((unsigned)ms.size()) : r(nd), nw = nd + r((unsigned)ms.size() - nd), ref = -1;
      if (!r(40)) nw = r(nd);
      for (int t = 0; t < 6 && !container(ms[p].k); ++t) p = r((unsigned)ms.size());
      if (ms[p].k == DT) continue;
      if (!ms[p].kids.empty() && r(5)) ref = ms[p].kids[r((unsigned)ms[p].kids.size())]; else if (!r(3)) ref = r((unsigned)ms.size());
      unsigned what = r(10); const char* op = what < 4 ? "insertBefore" : what < 6 ? "appendChild" : what < 8 ? "replaceChild" : "removeChild";
      if (what >= 4 && what < 6) ref = -1;
      if (what >= 6 && ref < 0) continue;
      M& P = ms[p]; bool frag = ms[nw].k == FRAG;
      // what the Recommendation says
      bool okk; std::function<void()> apply = []() {};
      bool refok = ref < 0 || P.kids.end() != std::find(P.kids.begin(), P.kids.end(), ref);
      std::vector<int> fk = ms[nw].kids;
      if (what < 6) {
        if (P.ro || !refok || !container(P.k)) okk = false;
        else if (nw == ref) okk = !(P.k == DOC && ms[nw].k == DT);
        else if (frag) {
          okk = !inside(p, nw); int ne = 0, ndt = 0; for (int q : fk) { okk = okk && may(p, q, ms[q].k == ELT ? elt(p) : -1); ne += ms[q].k == ELT; ndt += ms[q].k == DT; }
          if (P.k == DOC && okk && (ne + (elt(p) >= 0) > 1)) continue;   // partly moved: not specified
          apply = [=]() { for (int q : fk) link(p, q, ref); };
        } else { okk = may(p, nw, -1); int at = ref; apply = [=]() { link(p, nw, at); }; }
      } else if (what < 8) {
        if (P.ro || !refok || !container(P.k)) okk = false;
        else if (nw == ref) okk = !(P.k == DOC && ms[nw].k == DT) && okchild(P.k, ms[nw].k);
        else if (frag) {
          okk = !inside(p, nw); int ne = 0; for (int q : fk) { if (!may(p, q, ref)) okk = false; ne += ms[q].k == ELT; }
          if (P.k == DOC && ms[ref].k == DT) { okk = false; }
          else if (!okk && !inside(p, nw)) continue;                     // partly moved: not specified
          if (P.k == DOC && ne + (elt(p) >= 0 && elt(p) != ref) > 1) continue;
          apply = [=]() { for (int q : fk) link(p, q, ref); unlink(ref); };
        } else { okk = may(p, nw, ref) && !(P.k == DOC && ms[ref].k == DT); apply = [=]() { link(p, nw, ref); unlink(ref); }; }
      } else { okk = refok && !P.ro && container(P.k) && !(P.k == DOC && ms[ref].k == DT); apply = [=]() { unlink(ref); }; }
      char b[80]; snprintf(b, sizeof b, " %s(%d,%d,%d)", op, p, nw, ref); hist += b; begin(op, hist);
      bool threw = false; int code = 0; Node ret;
      try {
        Node rf = ref < 0 ? Node() : ms[ref].n;
        if (what < 4) ret = P.n.insertBefore(ms[nw].n, rf); else if (what < 6) ret = P.n.appendChild(ms[nw].n); else if (what < 8) ret = P.n.replaceChild(ms[nw].n, rf); else ret = P.n.removeChild(rf);
      } catch (const D::DOMException& e) { threw = true; code = e.code(); }
      if (threw && okk) fail(std::string("refused-") + op, hist + " threw " + str(code));
      if (!threw && !okk) fail(std::string("accepted-") + op, hist);
      if (!threw && okk) { apply(); if (id(ret) != (what < 6 ? nw : ref)) fail(std::string("result-of-") + op, hist); }
      if (threw == !okk) verify(op);
    }
    ms.clear(); ids.clear();
  }
  return finish();
}
