// white-space normalisation against splitting into words and joining them with one space
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <text/normalize_whitespace.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <XPath/XPath.hpp>
using namespace vh;
template<class S> S words(const S& s) {
  S out, w; bool any = false;
  auto flush = [&]() { if (!w.empty()) { if (any) out += 0x20; out += w; w.clear(); any = true; } };
  for (auto c : s) if (c == 9 || c == 10 || c == 13 || c == 32) flush(); else w += c;
  flush(); return out; }
template<class S> struct Filter {
  typedef Arabica::default_string_adaptor<S> A;
  struct H : Arabica::SAX::DefaultHandler<S> { S got; unsigned n = 0; void characters(const S& c) { got = c; ++n; } };
  static S run(const S& s, unsigned& n) { Arabica::SAX::WhitespaceStripper<S> f; H h; f.setContentHandler(h); f.characters(s); n = h.n; return h.got; } };
template<class S> void check(const S& s, bool filter) {
  typedef Arabica::default_string_adaptor<S> A;
  const S want = words(s), keep = s; begin(sizeof(s[0]) == 1 ? "byte strings" : "wide strings", esc(s));
  const S got = Arabica::text::normalize_whitespace<S, A>(s);
  if (got != want) fail("normalize", esc(s) + " => '" + esc(got) + "' not '" + esc(want) + "'");
  if (s != keep) fail("argument", esc(keep) + " changed");
  if (Arabica::text::normalize_whitespace<S, A>(got) != got) fail("twice", esc(s));
  if (filter) { unsigned n; S f = Filter<S>::run(s, n); if (f != want || n != 1) fail("filter", esc(s) + " => '" + esc(f) + "'"); } }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  const unsigned char al[] = {'a', 'B', ' ', '\t', '\r', '\n', 0, 0x0b, 0x85, 0xa0, 0xff}; const unsigned na = sizeof al;
  unsigned L = o.thorough ? 6 : 5;
  for (unsigned len = 0; len <= L; ++len) { unsigned long tot = 1; for (unsigned i = 0; i < len; ++i) tot *= na;
    for (unsigned long k = 0; k < tot; ++k) { std::string s; unsigned long q = k; for (unsigned i = 0; i < len; ++i, q /= na) s += char(al[q % na]); check(s, len < 4); } }
  const wchar_t wal[] = {L'a', L'B', L' ', L'\t', L'\r', L'\n', 0x0b, 0x85, 0xa0, 0x2003, 0x3000, 0x120, 0x10a, 0xfeff, 0x7ff, 0x800}; const unsigned nw = sizeof wal / sizeof wal[0];
  for (unsigned n = 0, e = o.n(6000, 60000); n < e; ++n) {
    unsigned len = r(4) ? r(12) : r(60) ? r(90) : r(6000), sp = 1 + r(6); std::string s; std::wstring w;
    for (unsigned i = 0; i < len; ++i) { s += r(sp) ? char(r(256)) : char(al[2 + r(4)]); w += r(sp) ? wal[r(nw)] : wal[2 + r(4)]; }
    check(s, true); if (len < 200) check(w, true); }
  // through XPath
  typedef std::string S; auto di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  { Arabica::DOM::Document<S> doc = di.createDocument("", "", Arabica::DOM::DocumentType<S>()); auto e = doc.createElement("e"); doc.appendChild(e);
    Arabica::XPath::XPath<S> xp; auto x1 = xp.compile_expr("normalize-space()"); auto x2 = xp.compile_expr("normalize-space(string(.))");
    for (unsigned n = 0, q = o.n(600, 5000); n < q; ++n) { while (e.getFirstChild() != 0) e.removeChild(e.getFirstChild());
      S s; for (unsigned i = 0, l = r(20); i < l; ++i) s += char(al[r(6)]); begin("normalize-space()", s); e.appendChild(doc.createTextNode(s));
      if (x1.evaluate(e).asString() != words(s)) fail("xpath", s); if (x2.evaluate(e).asString() != words(s)) fail("xpath-arg", s); } }
  return finish(); }
