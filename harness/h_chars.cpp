// character classes against XML 1.0 appendix B for every code unit; names against the productions
#include "common.hpp"
#include <climits>
#include <SAX/ArabicaConfig.hpp>
#include <XML/XMLCharacterClasses.hpp>
#include <XML/strings.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
using namespace vh;
namespace X = Arabica::XML; namespace D = Arabica::DOM;
#include "xml_ranges.inc"
template<size_t N> bool in(const Rg (&t)[N], long c) { for (auto& r : t) if (c >= (long)r.a && c <= (long)r.b) return true; return false; }
enum { BASE = 1, IDEO = 2, DIG = 4, COMB = 8, EXT = 16, CH = 32, SP = 64 };
static std::vector<unsigned char> cls;
static unsigned of(long c) { if (c >= 0 && c < (long)cls.size()) return cls[c]; return 0; }
static unsigned slow(long c) { return in(BASE_CHAR, c) * BASE | in(IDEOGRAPHIC, c) * IDEO | in(DIGIT, c) * DIG | in(COMBINING, c) * COMB | in(EXTENDER, c) * EXT
  | (c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xD7FF) || (c >= 0xE000 && c <= 0xFFFD) || (c >= 0x10000 && c <= 0x10FFFF)) * CH | (c == 9 || c == 10 || c == 13 || c == 32) * SP; }
static bool letter(long c) { return of(c) & (BASE | IDEO); }
static bool ncc(long c) { return (of(c) & (BASE | IDEO | DIG | COMB | EXT)) || c == '.' || c == '-' || c == '_'; }
template<class S> bool ncname(const S& s) { if (s.empty() || !(letter(s[0]) || s[0] == '_')) return false; for (auto c : s) if (!ncc(c)) return false; return true; }
template<class S> bool qname(const S& s) { size_t k = s.find(typename S::value_type(':')); if (k == S::npos) return ncname(s); return ncname(s.substr(0, k)) && ncname(s.substr(k + 1)); }
static void one(long c) {
  unsigned w = of(c); wchar_t v = (wchar_t)c; char b[64]; snprintf(b, sizeof b, "code unit 0x%lX", c);
  #define CK(F, E) if (X::F(v) != bool(E)) { fail(#F, std::string(#F) + " of " + b); }
  CK(is_base_char, w & BASE) CK(is_ideographic, w & IDEO) CK(is_letter, w & (BASE | IDEO)) CK(is_digit, w & DIG) CK(is_combining_char, w & COMB) CK(is_extender, w & EXT)
  CK(is_char, w & CH) CK(is_space, w & SP) CK(is_letter_or_digit, w & (BASE | IDEO | DIG)) CK(is_ncname_char, ncc(c)) CK(is_name_char, ncc(c) || c == ':') }
template<class S> void names(const S& s, const char* what) {
  typedef Arabica::default_string_adaptor<S> A; begin(what, esc(s));
  if (X::is_ncname<A>(s) != ncname(s)) fail(std::string(what) + ":ncname", esc(s)); if (X::is_qname<A>(s) != qname(s)) fail(std::string(what) + ":qname", esc(s)); }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  cls.resize(0x120000); for (long i = 0; i < 0x120000; ++i) cls[i] = slow(i);
  begin("all code units to 0x11FFFF", ""); for (long i = 0; i < 0x120000; ++i) one(i);
  begin("code units outside Unicode", ""); for (long i = 1; i < 0x20000; ++i) one(-i); for (long i : {(long)INT_MIN, (long)INT_MIN + 1, (long)INT_MAX, (long)INT_MAX - 1}) one(i);
  for (unsigned n = 0, e = o.n(1000000, 200000000); n < e; ++n) one((int)r.next());
  // names
  const char al[] = {'a', 'Z', '_', ':', '-', '.', '1', ' ', 0, '/', '@', '[', '`', '{', 'z'}; const unsigned na = sizeof al;
  for (unsigned len = 0; len <= 4; ++len) { unsigned long tot = 1; for (unsigned i = 0; i < len; ++i) tot *= na;
    for (unsigned long k = 0; k < tot; ++k) { std::string s; std::wstring w; unsigned long q = k; for (unsigned i = 0; i < len; ++i, q /= na) { s += al[q % na]; w += (wchar_t)al[q % na]; } names(s, "byte names"); names(w, "wide names"); } }
  for (unsigned n = 0, e = o.n(60000, 1500000); n < e; ++n) { std::wstring w; std::string s; unsigned len = r(3) ? r(7) : r(400); bool good = r(3);
    for (unsigned i = 0; i < len; ++i) { wchar_t x; do x = r(3) ? al[r(na)] : r(2) ? r(0x3200) : r(8) ? r(0x10000) : r(0x110000); while (good && !ncc(x) && r(60)); w += x; char y; do y = r(4) ? al[r(na)] : char(r(128)); while (good && !ncc(y) && r(60)); s += y; }
    names(w, "wide names"); names(s, "byte names"); }
  // the names and characters a document refuses
  typedef std::wstring W; typedef std::string S;
  { auto dw = Arabica::SimpleDOM::DOMImplementation<W>::getDOMImplementation().createDocument(L"", L"", D::DocumentType<W>()); auto ds = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "", D::DocumentType<S>());
    auto ew = dw.createElement(L"e"); auto es = ds.createElement("e");
    for (unsigned n = 0, e = o.n(20000, 400000); n < e; ++n) { W w; S s; unsigned len = r(6); bool ok = true, sok = true, ch = true;
      for (unsigned i = 0; i < len; ++i) { wchar_t x; do x = r(3) ? al[r(na)] : r(2) ? r(0x3200) : r(0x120000); while (!ncc(x) && r(5)); w += x; ok &= ncc(x) || x == ':'; ch &= bool(of(x) & CH); char y = r(40) ? "abZ_:-.19"[r(9)] : char(r(128)); s += y; sok &= ncc(y) || y == ':'; }
      ok &= len > 0; sok &= len > 0; begin("names in a document", esc(w));
      for (unsigned k = 0; k < 3; ++k) { int code = 0; try { if (k == 0) dw.createElement(w); else if (k == 1) dw.createAttribute(w); else dw.createEntityReference(w); } catch (const D::DOMException& x) { code = x.code(); } if (code != (ok ? 0 : 5)) fail("document:name", esc(w)); }
      { int code = 0; try { es.setAttribute(s, "v"); es.removeAttribute(s); } catch (const D::DOMException& x) { code = x.code(); } if (code != (sok ? 0 : 5)) fail("document:byte name", esc(s)); }
      { int code = 0; try { dw.createProcessingInstruction(L"t", w); } catch (const D::DOMException& x) { code = x.code(); } if (code != (ch ? 0 : 5)) fail("document:chars", esc(w)); } }
    // names in UTF-8
    begin("UTF-8 names", "\xc3\xa9"); S e("\xc3\xa9"); if (!X::is_ncname<Arabica::default_string_adaptor<S> >(e)) fail("names:utf8", "is_ncname of e-acute in UTF-8 is false");
    try { ds.createElement(e); } catch (const D::DOMException&) { fail("names:utf8", "createElement(e-acute in UTF-8) is refused"); } }
  return finish(); }
