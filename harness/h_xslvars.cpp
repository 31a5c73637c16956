// Random stylesheets (import trees, globals, parameters, nested blocks, calls) run by the real
// processor and by a reference interpreter written from the XSLT Recommendation (sections 2.6.2, 11).
#include "common.hpp"
#include <XSLT/XSLT.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <memory>
#include <fstream>
#include <iostream>
using namespace vh;
typedef std::string S;
struct Expr { std::vector<std::pair<bool, S>> parts; };       // (is a reference, text)
struct Ins; typedef std::vector<Ins> Body;
struct Val { bool content = false; Expr sel; std::shared_ptr<Body> body; };
struct Ins { int k = 0; S name; Val v; std::shared_ptr<Body> body; std::vector<std::pair<S, Val>> with; S text; };
enum { TEXT, VALUE, VAR, IF, FOREACH, CHOOSE, CALL, APPLY, ELEM };
struct Global { bool param; S name; Val v; };
struct Param { S name; Val v; };
struct Templ { std::vector<Param> params; Body body; };
struct Module { std::vector<int> imports; std::vector<Global> globals; std::vector<int> order; };
struct Prog { std::vector<Module> mods; std::vector<Templ> t; std::map<S, S> given; };
static S xpath(const Expr& e) {
  std::vector<S> p;
  for (auto& x : e.parts) p.push_back(x.first ? "string($" + x.second + ")" : "'" + x.second + "'");
  if (p.empty()) return "''";
  if (p.size() == 1) return p[0];
  S o = "concat(" + p[0]; for (size_t i = 1; i < p.size(); ++i) o += "," + p[i]; return o + ")";
}
static S wr(const Body& b);
static S val(const S& el, const S& name, const Val& v) { S o = "<xsl:" + el + " name=\"" + name + "\""; return v.content ? o + ">" + wr(*v.body) + "</xsl:" + el + ">" : o + " select=\"" + xpath(v.sel) + "\"/>"; }
static S wr(const Body& b) {
  S o;
  for (auto& i : b) switch (i.k) {
    case TEXT: o += "<xsl:text>" + i.text + "</xsl:text>"; break;
    case VALUE: o += "<xsl:value-of select=\"" + xpath(i.v.sel) + "\"/>"; break;
    case VAR: o += val("variable", i.name, i.v); break;
    case IF: o += "<xsl:if test=\"true()\">" + wr(*i.body) + "</xsl:if>"; break;
    case FOREACH: o += "<xsl:for-each select=\"/r/i\">" + wr(*i.body) + "</xsl:for-each>"; break;
    case CHOOSE: o += "<xsl:choose><xsl:when test=\"false()\"/><xsl:otherwise>" + wr(*i.body) + "</xsl:otherwise></xsl:choose>"; break;
    case ELEM: o += "<xsl:element name=\"e\">" + wr(*i.body) + "</xsl:element>"; break;
    case CALL: o += "<xsl:call-template name=\"t" + i.name + "\">"; for (auto& w : i.with) o += val("with-param", w.first, w.second); o += "</xsl:call-template>"; break;
    case APPLY: o += "<xsl:apply-templates select=\"/r/i\" mode=\"m" + i.name + "\">"; for (auto& w : i.with) o += val("with-param", w.first, w.second); o += "</xsl:apply-templates>"; break;
  }
  return o;
}
struct Unbound {};
struct Interp {
  const Prog& p; std::map<S, std::pair<const Global*, S>> g; std::map<S, S> gv;
  explicit Interp(const Prog& q) : p(q) { walk(0); }
  // post-order: what is walked later has the higher import precedence
  void walk(int m) { for (int i : p.mods[m].imports) walk(i); for (auto& d : p.mods[m].globals) g[d.name].first = &d; }
  typedef std::map<S, S> Env;
  S global(const S& n) {
    if (gv.count(n)) return gv[n];
    auto i = g.find(n); if (i == g.end()) throw Unbound();
    const Global* d = i->second.first;
    if (d->param && p.given.count(n)) return gv[n] = p.given.at(n);
    Env none; S v = value(d->v, none); return gv[n] = v;
  }
  S eval(const Expr& e, Env& env) {
    S o; for (auto& x : e.parts) { if (!x.first) { o += x.second; continue; } auto l = env.find(x.second); o += l != env.end() ? l->second : global(x.second); } return o; }
  S value(const Val& v, Env& env) { if (!v.content) return eval(v.sel, env); Env in = env; return run(*v.body, in); }
  S call(int t, const std::vector<std::pair<S, Val>>& with, Env& env) {
    Env passed, in; for (auto& w : with) passed[w.first] = lazy(t, w, env);
    for (auto& q : p.t[t].params) in[q.name] = passed.count(q.name) ? passed[q.name] : value(q.v, in);
    return run(p.t[t].body, in);
  }
  // a parameter the template does not declare is never looked at
  S lazy(int t, const std::pair<S, Val>& w, Env& env) { for (auto& q : p.t[t].params) if (q.name == w.first) return value(w.second, env); return ""; }
  S run(const Body& b, Env& env) {
    S o;
    for (auto& i : b) switch (i.k) {
      case TEXT: o += i.text; break;
      case VALUE: o += eval(i.v.sel, env); break;
      case VAR: env[i.name] = value(i.v, env); break;
      case FOREACH: for (int k = 0; k < 2; ++k) { Env in = env; o += run(*i.body, in); } break;
      case IF: case CHOOSE: case ELEM: { Env in = env; o += run(*i.body, in); break; }
      case CALL: o += call(atoi(i.name.c_str()), i.with, env); break;
      case APPLY: for (int k = 0; k < 2; ++k) o += call(atoi(i.name.c_str()), i.with, env); break;
    }
    return o;
  }
};
struct Gen {
  Rng& r; Prog p; std::set<S> gnames; int nt; unsigned left; bool global = true; int inval = 0;
  static const std::vector<S>& names() { static const std::vector<S> v = {"a", "b", "c", "d"}; return v; }
  explicit Gen(Rng& x) : r(x), left(60) {}
  S lit() { return S(1, char('k' + r(8))) + std::to_string(r(100)); }
  Expr expr(const std::set<S>& scope, const std::set<S>& globals) {
    Expr e; std::vector<S> v(scope.begin(), scope.end()); v.insert(v.end(), globals.begin(), globals.end());
    for (unsigned n = 1 + r(3); n--;) if (!v.empty() && r(4)) e.parts.push_back({true, r.pick(v)}); else e.parts.push_back({false, lit()});
    return e;
  }
  Val value(const std::set<S>& scope, int t, int d) {
    Val v; v.content = d < 3 && r.coin(3) && left > 4; 
    if (v.content) { ++inval; v.body = std::make_shared<Body>(body(scope, t, d + 1)); --inval; } else v.sel = expr(scope, gnames);
    return v;
  }
  Body body(std::set<S> scope, int t, int d) {
    Body b; if (left > 0) --left;
    for (unsigned n = 1 + r(4); n--;) {
      Ins i; unsigned w = r(11);
      if (w == 0 || left == 0) { i.k = TEXT; i.text = "." + lit(); }
      else if (w < 4) { i.k = VALUE; i.v.content = false; i.v.sel = expr(scope, gnames);
        if (!global && r.coin(60)) { S nm = r.pick(names()); if (!scope.count(nm) && !gnames.count(nm)) i.v.sel.parts.push_back({true, nm}); } }
      else if (w < 6) { S nm = r.pick(names()); if (scope.count(nm)) continue; i.k = VAR; i.name = nm; i.v = value(scope, t, d); scope.insert(nm); }
      else if (w < 9 && d < 4) { static const int ks[] = {IF, FOREACH, CHOOSE, ELEM}; /* no elements in contents */ i.k = ks[r(inval || t ? 3 : 4)]; if (d > 2 && i.k == FOREACH) i.k = IF; i.body = std::make_shared<Body>(body(scope, t, d + 1)); }
      else if (t + 1 < nt && d < 4) { i.k = r.coin(3) ? APPLY : CALL; i.name = std::to_string(t + 1 + r(nt - t - 1)); std::set<S> done;
        for (unsigned k = r(3); k--;) { S nm = r.pick(names()); if (done.insert(nm).second) i.with.push_back({nm, value(scope, t, d)}); } }
      else continue;
      b.push_back(i); if (left > 0) --left;
    }
    return b;
  }
  void make() {
    unsigned nm = 1 + r(5); p.mods.resize(nm);
    for (unsigned m = 1; m < nm; ++m) p.mods[r(m)].imports.push_back(m);
    static const std::vector<S> gs = {"a", "b", "g", "h"};
    nt = 1 + r(4);
    std::set<S> all; for (auto& m : p.mods) for (auto& g : gs) if (r(3) == 0) { Global d; d.name = g; d.param = r.coin(3); m.globals.push_back(d); all.insert(g); }
    for (auto& m : p.mods) for (auto& d : m.globals) { std::set<S> lower; for (auto& g : all) if (g < d.name) lower.insert(g);
      gnames = lower; if (r.coin(4)) { d.v.content = true; ++inval; d.v.body = std::make_shared<Body>(body({}, nt, 2)); --inval; } else { d.v.content = false; d.v.sel = expr({}, lower); } }
    for (auto& m : p.mods) for (size_t k = m.globals.size(); k > 1; --k) std::swap(m.globals[k - 1], m.globals[r(k)]);
    gnames = all; global = false;
    for (auto& g : gs) if (r.coin(4)) p.given[g] = "given-" + g;
    p.t.resize(nt);
    for (int t = 0; t < nt; ++t) { std::set<S> sc;
      if (t) for (unsigned k = r(4); k--;) { S n = r.pick(names()); if (sc.count(n)) continue; Param q; q.name = n; q.v = value(sc, t, 2); p.t[t].params.push_back(q); sc.insert(n); }
      left = 40; p.t[t].body = body(sc, t, 0); }
  }
};
static S module(const Prog& p, int m) {
  S o = "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" version=\"1.0\">";
  for (int i : p.mods[m].imports) o += "<xsl:import href=\"m" + std::to_string(i) + ".xsl\"/>";
  if (m == 0) o += "<xsl:output method=\"text\"/>";
  for (auto& d : p.mods[m].globals) o += val(d.param ? "param" : "variable", d.name, d.v);
  if (m == 0) for (size_t t = 0; t < p.t.size(); ++t) {
    S in; for (auto& q : p.t[t].params) in += val("param", q.name, q.v);
    in += wr(p.t[t].body);
    if (t == 0) o += "<xsl:template match=\"/\">" + in + "</xsl:template>";
    else o += "<xsl:template name=\"t" + std::to_string(t) + "\">" + in + "</xsl:template><xsl:template match=\"i\" mode=\"m" + std::to_string(t) + "\">" + in + "</xsl:template>";
  }
  return o + "</xsl:stylesheet>";
}
static S run_real(const S& file, const std::map<S, S>& given) {
  Arabica::SAX::InputSource<S> src(file);
  Arabica::XSLT::StylesheetCompiler<S> comp;
  auto ss = comp.compile(src);
  if (!ss.get()) return "COMPILE ERROR " + comp.error();
  for (auto& g : given) ss->set_parameter(g.first, g.second);
  std::istringstream xs("<r><i>1</i><i>2</i></r>"); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> ps; ps.parse(xi);
  std::ostringstream out, err; Arabica::XSLT::StreamSink<S> sink(out); ss->set_output(sink); ss->set_error_output(err);
  try { ss->execute(ps.getDocument()); } catch (const std::exception& e) { return S("EXCEPTION ") + e.what(); }
  return out.str();
}
static void put(const S& f, const S& t) { std::ofstream o(f.c_str()); o << t; }
static void one(Rng& r) {
  Gen g(r); g.make();
  S all; for (size_t m = 0; m < g.p.mods.size(); ++m) { S t = module(g.p, m); put("m" + std::to_string(m) + ".xsl", t); all += "m" + std::to_string(m) + ": " + t + " "; }
  for (auto& x : g.p.given) all += " given " + x.first + "=" + x.second;
  begin("stylesheet", all);
  S exp; bool unb = false;
  Interp in(g.p);
  try { Interp::Env e; for (auto& d : in.g) in.global(d.first); exp = in.call(0, {}, e); } catch (const Unbound&) { unb = true; }
  S got = run_real("m0.xsl", g.p.given);
  if (unb) { ++tally()["unbound reference"]; if (got.compare(0, 9, "EXCEPTION") || got.find("ircular") != S::npos) fail("unbound-reference-accepted", all + " => " + got); return; }
  if (got != exp) fail(got.compare(0, 9, "EXCEPTION") ? got.compare(0, 7, "COMPILE") ? "wrong-binding" : "compile" : "refused", all + " => " + got + " expected " + exp);
}
// import precedence as an order: importer above imported, later import above earlier, whole trees at a time
static void prec(Rng& r) {
  struct N { Precedence p; std::vector<int> path; };
  std::vector<N> ns; ns.push_back({Precedence::InitialPrecedence(), {}});
  for (unsigned k = 1 + r(8); k--;) { unsigned a = r(ns.size()); if (ns[a].path.size() > 3) continue; Precedence q = ns[a].p.next_generation();
    std::vector<int> pt = ns[a].path; int used = 0; for (auto& n : ns) if (n.path.size() == pt.size() + 1 && std::equal(pt.begin(), pt.end(), n.path.begin())) ++used; pt.push_back(used + 1); ns.push_back({q, pt}); }
  begin("precedence", std::to_string(ns.size()) + " modules");
  for (auto& a : ns) for (auto& b : ns) {
    bool pre = a.path.size() <= b.path.size() && std::equal(a.path.begin(), a.path.end(), b.path.begin());
    bool below; if (pre) below = false; else if (b.path.size() < a.path.size() && std::equal(b.path.begin(), b.path.end(), a.path.begin())) below = true;
    else below = std::lexicographical_compare(a.path.begin(), a.path.end(), b.path.begin(), b.path.end());
    S w; for (int x : a.path) w += std::to_string(x) + "."; w += " and "; for (int x : b.path) w += std::to_string(x) + ".";
    if ((a.p < b.p) != below) fail("precedence-less", w);
    if ((b.p > a.p) != below) fail("precedence-greater", w);
    if ((a.p == b.p) != (a.path == b.path)) fail("precedence-equal", w);
    if (a.p.is_descendant(b.p) != (pre && a.path != b.path)) fail("precedence-descendant", w);
    if (!Precedence::FrozenPrecedence().is_descendant(a.p) || a.p > Precedence::FrozenPrecedence()) fail("precedence-frozen", w);
  }
}
int main(int argc, char** argv) {
  Opt o = start(argc, argv); Rng r(o.seed);
  for (unsigned i = 0; i < o.n(300, 3000); ++i) prec(r);
  for (unsigned i = 0; i < o.n(1500, 25000); ++i) one(r);
  return finish();
}
