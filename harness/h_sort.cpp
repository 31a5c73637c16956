// xsl:sort run by the real processor, against a sort by the declared keys written from XSLT 1.0 section 10
#include "common.hpp"
#include <XSLT/XSLT.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <memory>
#include <cmath>
using namespace vh;
typedef std::string S;
struct Key { unsigned attr; bool number, desc; int ds, os; };
static const char* words[] = {"", "a", "b", "ab", "B", "aa", "a b", "10", "9", "-1", "0", "-0", "1.5", "x1", "z", "2x", "100", " 3 ", "00", "-.5", "é"};
static S esc_(const S& s) { return s; }
// XPath number(): optional minus, digits with an optional point, white space around
static double num(const S& t) { size_t b = t.find_first_not_of(" "), e = t.find_last_not_of(" "); if (b == S::npos) return NAN; S s = t.substr(b, e - b + 1); size_t i = s[0] == '-'; bool d = false, p = false; for (; i < s.size(); ++i) { if (s[i] == '.') { if (p) return NAN; p = true; } else if (s[i] >= '0' && s[i] <= '9') d = true; else return NAN; } return d ? strtod(s.c_str(), 0) : NAN; }
struct Row { S v[3]; };
static bool less(const Row& x, const Row& y, const std::vector<Key>& ks) {
  for (auto& k : ks) { const Row& a = k.desc ? y : x; const Row& b = k.desc ? x : y; const S& s = a.v[k.attr]; const S& t = b.v[k.attr];
    if (k.number) { double m = num(s), n = num(t); bool mn = m != m, nn = n != n; if (mn || nn) { if (mn != nn) return mn; continue; } if (m != n) return m < n; }
    else if (s != t) return s < t; }
  return false; }
int main(int c, char** v) {
  Opt o = start(c, v); Rng r(o.seed);
  for (unsigned n = 0, e = o.n(1500, 20000); n < e; ++n) {
    std::vector<Key> ks; unsigned nk = r(8) == 0 ? 0 : 1 + r(4); for (unsigned i = 0; i < nk; ++i) { Key k; k.attr = r(3); k.number = r.coin(); k.desc = r.coin(); k.ds = r(3); k.os = r(3); ks.push_back(k); }
    unsigned rows = r(12) == 0 ? 60 + r(60) : 1 + r(9); unsigned vocab = r(3) ? 4 : 21; unsigned base = r(21);
    std::vector<Row> d; S xml = "<r><first/>"; for (unsigned i = 0; i < rows; ++i) { Row x; xml += "<i id='" + str(i) + "'"; for (int j = 0; j < 3; ++j) { x.v[j] = words[(base + r(vocab)) % 21]; xml += S(" ") + char('a' + j) + "='" + esc_(x.v[j]) + "'"; } xml += "/>"; d.push_back(x); } xml += "<last num='number' up='ascending' down='descending'/></r>";
    static const char* sel[] = {"/r/i", "/r/last/preceding-sibling::i", "/r/i[@id &gt; 2] | /r/i[@id &lt; 3]", "//i", "/r/first/following-sibling::i", "/r/last/preceding::i"};
    S select = sel[r(6)]; bool apply = r.coin();
    S sorts; for (auto& k : ks) { sorts += "<xsl:sort select='@" + S(1, char('a' + k.attr)) + "'";
      if (k.number) sorts += k.ds == 2 ? " data-type='{/r/last/@num}'" : " data-type='number'"; else if (k.ds) sorts += " data-type='text'";
      if (k.desc) sorts += k.os == 2 ? " order='{/r/last/@down}'" : " order='descending'"; else if (k.os) sorts += " order='ascending'"; sorts += "/>"; }
    S body = "<xsl:value-of select='@id'/><xsl:text>:</xsl:text><xsl:value-of select='position()'/><xsl:text>,</xsl:text>";
    S xsl = "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:output method='text'/><xsl:template match='/'>" +
      (apply ? "<xsl:apply-templates select='" + select + "'>" + sorts + "</xsl:apply-templates>" : "<xsl:for-each select='" + select + "'>" + sorts + body + "</xsl:for-each>") + "</xsl:template><xsl:template match='i'>" + body + "</xsl:template></xsl:stylesheet>";
    begin(ks.empty() ? "no keys" : "keys", sorts + " over " + select + (apply ? " applied" : " for-each") + " in " + xml);
    std::vector<int> idx; for (unsigned i = 0; i < rows; ++i) idx.push_back(i); std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return less(d[a], d[b], ks); });
    S want; for (unsigned i = 0; i < rows; ++i) want += str(idx[i]) + ":" + str(i + 1) + ",";
    try {
      std::istringstream ss(xsl); Arabica::SAX::InputSource<S> si(ss); Arabica::XSLT::StylesheetCompiler<S> comp; std::unique_ptr<Arabica::XSLT::Stylesheet<S> > sheet = comp.compile(si);
      if (!sheet.get()) { fail("compile", current() + comp.error()); continue; }
      std::istringstream xs(xml); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi);
      std::ostringstream out; Arabica::XSLT::StreamSink<S> sink(out); sheet->set_output(sink); sheet->execute(p.getDocument());
      S got = out.str(); while (!got.empty() && got.back() == '\n') got.pop_back();
      if (got != want) fail("order", current() + " gave " + got + " expected " + want);
    } catch (const std::exception& x) { fail("exception", current() + " " + x.what()); }
  }
  // other values of the attributes are refused
  for (int i = 0; i < 4; ++i) { static const char* bad[] = {"data-type='numbers'", "order='up'", "case-order='upper'", "data-type=''"}; begin("refused", bad[i]); bool threw = false;
    S xsl = S("<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:template match='/'><xsl:for-each select='/r/i'><xsl:sort ") + bad[i] + "/></xsl:for-each></xsl:template></xsl:stylesheet>";
    try { std::istringstream ss(xsl); Arabica::SAX::InputSource<S> si(ss); Arabica::XSLT::StylesheetCompiler<S> comp; std::unique_ptr<Arabica::XSLT::Stylesheet<S> > sheet = comp.compile(si); if (!sheet.get()) continue;
      std::istringstream xs("<r><i/><i/></r>"); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi); std::ostringstream out; Arabica::XSLT::StreamSink<S> sink(out); sheet->set_output(sink); sheet->execute(p.getDocument()); } catch (const std::exception&) { threw = true; }
    if (!threw) fail("accepted", bad[i]); }
  return finish();
}
