// tree walker moves against the logical view, flattened by brute force
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/TreeWalker.hpp>
#include <DOM/Traversal/NodeFilter.hpp>
using namespace vh;
namespace D = Arabica::DOM; namespace T = Arabica::DOM::Traversal;
typedef std::string S; typedef D::Node<S> Node;
struct Mn { Node n; int type, f; Mn* up; std::vector<Mn*> kids; int id; };
struct Filter : T::NodeFilter<S> { const std::vector<Mn*>* all; Result acceptNode(const Node& n) const { for (auto m : *all) if (m->n == n) return Result(m->f); return FILTER_ACCEPT; } };
static std::vector<Mn*> all; static unsigned long mask; static bool useFilter, expand; static Mn* root;
static int verdict(Mn* m) { if (!(mask >> (m->type - 1) & 1)) return 3; return useFilter ? m->f : 1; }
static bool below(Mn* m, Mn* a) { for (; m; m = m->up) if (m == a) return true; return false; }
// DOM: a sibling in the logical view, also asked from a node that is not in it
static Mn* near(Mn* m, bool fwd) { if (!m->up) return 0; auto& k = m->up->kids; size_t i = std::find(k.begin(), k.end(), m) - k.begin(); return fwd ? (i + 1 < k.size() ? k[i + 1] : 0) : i ? k[i - 1] : 0; }
static Mn* sibling(Mn* n, bool fwd) { if (n == root) return 0; for (;;) { Mn* s = near(n, fwd);
  while (s) { n = s; int v = verdict(n); if (v == 1) return n; s = n->kids.empty() ? 0 : fwd ? n->kids.front() : n->kids.back(); if (v == 2 || !s) s = near(n, fwd); }
  n = n->up; if (!n || n == root || verdict(n) == 1) return 0; } }
// the children of m in the logical view
static void view(Mn* m, std::vector<Mn*>& o) { if (!expand && m->type == 5) return; for (auto k : m->kids) { int v = verdict(k); if (v == 1) o.push_back(k); else if (v == 3) view(k, o); } }
static void flat(Mn* m, std::vector<Mn*>& o) { std::vector<Mn*> k; view(m, k); for (auto c : k) { o.push_back(c); flat(c, o); } }
static Mn* make(Rng& r, D::Document<S>& d, Mn* up, int depth, int& id) {
  Mn* m = new Mn; m->up = up; m->f = 1 + (r(3) ? 0 : r(3)); m->id = id++; all.push_back(m);
  unsigned k = up ? r(8) : 0; bool leaf = false;
  if (k < 4) m->n = d.createElement("e" + str(m->id)); else if (k == 4) { m->n = d.createTextNode("t"); leaf = true; } else if (k == 5) { m->n = d.createComment("c"); leaf = true; }
  else if (k == 6) { m->n = d.createProcessingInstruction("p", "d"); leaf = true; } else m->n = d.createCDATASection("x"), leaf = true;
  m->type = m->n.getNodeType(); if (up) up->n.appendChild(m->n);
  if (!leaf && depth) for (unsigned i = 0, e = r(5); i < e; ++i) m->kids.push_back(make(r, d, m, depth - 1, id));
  return m; }
static S show(Mn* m) { S s = "(" + str(m->id) + ":" + str(m->type) + (verdict(m) == 1 ? "" : verdict(m) == 2 ? "R" : "S"); for (auto k : m->kids) s += show(k); return s + ")"; }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed); auto di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); Filter f; f.all = &all;
  for (unsigned n = 0, e = o.n(5000, 80000); n < e; ++n) {
    begin("walk", ""); D::Document<S> d = di.createDocument("", "", D::DocumentType<S>()); T::DocumentTraversal<S> t = d.createDocumentTraversal();
    int id = 0; Mn* top = make(r, d, 0, 1 + r(5), id); root = r(3) ? top : all[r(all.size())]; mask = r(2) ? ~0ul : r(3) ? (r(2) ? 0x1ul : 0x85ul) : r(512); useFilter = r(3) != 0; expand = r(2);
    S desc = show(top) + " root " + str(root->id); step(desc);
    T::TreeWalker<S> w = useFilter ? t.createTreeWalker(root->n, mask, f, expand) : t.createTreeWalker(root->n, mask, expand);
    if (!(w.getRoot() == root->n) || w.getWhatToShow() != mask || !(w.getCurrentNode() == root->n) || w.getExpandEntityReferences() != expand || w.getFilter() != (useFilter ? &f : 0)) fail("fields", desc);
    std::vector<Mn*> line; flat(root, line); // visible nodes below the root, in order
    // a whole walk, forwards and backwards
    for (auto x : line) { Node g = w.nextNode(); if (!(g == x->n) || !(w.getCurrentNode() == x->n)) { fail("walk-forward", desc + " at " + str(x->id)); break; } }
    if (!(w.nextNode() == 0)) fail("walk-forward-end", desc);
    if (!line.empty() && w.getCurrentNode() == line.back()->n) { for (int i = int(line.size()) - 2; i >= 0; --i) { Node g = w.previousNode(); if (!(g == line[i]->n)) { fail("walk-backward", desc + " at " + str(line[i]->id)); break; } } }
    // moves from visible nodes and the root; from nodes that are not visible the answer must still stay within the root
    for (unsigned k = 0; k < 12; ++k) {
      bool any = r(6) == 0; Mn* cur = any ? all[r(all.size())] : line.empty() || r(8) == 0 ? root : line[r(line.size())];
      w.setCurrentNode(cur->n); bool vis = cur == root || std::find(line.begin(), line.end(), cur) != line.end();
      unsigned op = r(7); static const char* names[] = {"parentNode", "firstChild", "lastChild", "previousSibling", "nextSibling", "previousNode", "nextNode"}; step(S("; ") + names[op] + " from " + str(cur->id));
      Node g; switch (op) { case 0: g = w.parentNode(); break; case 1: g = w.firstChild(); break; case 2: g = w.lastChild(); break; case 3: g = w.previousSibling(); break; case 4: g = w.nextSibling(); break; case 5: g = w.previousNode(); break; default: g = w.nextNode(); }
      if (!(w.getCurrentNode() == (g == 0 ? cur->n : g))) fail(S(names[op]) + "-current", desc + " from " + str(cur->id));
      Mn* got = 0; for (auto m : all) if (m->n == g) got = m;
      if (got && below(cur, root) && (!below(got, root) || (got != root && verdict(got) != 1))) fail(S(names[op]) + "-outside", desc + " from " + str(cur->id) + " got " + str(got->id));
      std::vector<Mn*> kids; view(cur, kids); Mn* exp = 0; bool know = vis || op == 1 || op == 2;
      if (op == 1) exp = kids.empty() ? 0 : kids[0]; if (op == 2) exp = kids.empty() ? 0 : kids.back();
      if (vis) {
        Mn* par = 0; if (cur != root) { for (Mn* p = cur->up; ; p = p->up) { if (verdict(p) == 1) { par = p; break; } if (p == root) break; } }
        if (op == 0) exp = par;
        if (op == 3 || op == 4) { exp = 0; if (cur != root) { Mn* holder = root; for (Mn* p = cur->up; p != root; p = p->up) if (verdict(p) == 1) { holder = p; break; } std::vector<Mn*> s; view(holder, s); auto i = std::find(s.begin(), s.end(), cur); if (op == 4 && i + 1 != s.end()) exp = *(i + 1); if (op == 3 && i != s.begin()) exp = *(i - 1); } }
        if (op == 5 || op == 6) { exp = 0; std::vector<Mn*> s; if (verdict(root) == 1 || cur == root) s.push_back(root); s.insert(s.end(), line.begin(), line.end()); auto i = std::find(s.begin(), s.end(), cur); if (op == 6 && i + 1 != s.end()) exp = *(i + 1); if (op == 5 && i != s.begin()) exp = *(i - 1); }
      }
      if (!vis && below(cur, root) && (op == 0 || op == 3 || op == 4)) { know = true; exp = 0; if (op == 0) { for (Mn* p = cur; p != root; ) { p = p->up; if (verdict(p) == 1) { exp = p; break; } } } else exp = sibling(cur, op == 4); }
      if (know && got != exp) fail(names[op], desc + " from " + str(cur->id) + " got " + (got ? str(got->id) : S("none")) + " expected " + (exp ? str(exp->id) : S("none")));
    }
    for (auto m : all) delete m; all.clear();
  }
  return finish();
}
