VS='include/XSLT/impl/xslt_variable_stack.hpp'
PR='include/XSLT/impl/xslt_precedence.hpp'
H='''#include <XSLT/XSLT.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <fstream>
#include <sstream>
#include <iostream>
typedef std::string S;
static void put(const S& f, const S& t) { std::ofstream o(f.c_str()); o << "<xsl:stylesheet xmlns:xsl='http://www.w3.org/1999/XSL/Transform' version='1.0'>" << t << "</xsl:stylesheet>"; }
static S run(const S& f) {
  Arabica::SAX::InputSource<S> src(f); Arabica::XSLT::StylesheetCompiler<S> comp; auto ss = comp.compile(src);
  if(!ss.get()) return "compile: " + comp.error();
  std::istringstream xs("<r/>"); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi);
  std::ostringstream out; Arabica::XSLT::StreamSink<S> sink(out); ss->set_output(sink);
  try { ss->execute(p.getDocument()); } catch(const std::exception& e) { return S("exception: ") + e.what(); }
  return out.str(); }
int main() {
%s
return 0; }
'''
B('P15a','P15','an import tree three levels deep with two sibling modules at the third level declaring one global','import precedence is compared on the first two levels only',
  [(PR,'''  for(size_t c = 0; c != len; ++c)
  {''','''  for(size_t c = 0; c != len && c != 2; ++c)
  {''')],
  H%'''put("c.xsl", "<xsl:variable name='g' select='&quot;low&quot;'/>"); put("d.xsl", "<xsl:variable name='g' select='&quot;high&quot;'/>");
put("b.xsl", "<xsl:import href='c.xsl'/><xsl:import href='d.xsl'/>");
put("a.xsl", "<xsl:import href='b.xsl'/><xsl:output method='text'/><xsl:template match='/'><xsl:value-of select='$g'/></xsl:template>");
S r = run("a.xsl"); if (r != "high") { std::cout << r << "\\n"; return 1; }''', link='all')
B('P15c','P15','a variable declared inside a chosen branch, and the name used again after the choice','a branch of xsl:choose no longer closes the scope it opens',
  [('include/XSLT/impl/xslt_choose.hpp',"""    ChainStackFrame<string_type, string_adaptor> frame(context);
""","""""")],
  H%"""put("a.xsl", "<xsl:output method='text'/><xsl:variable name='v' select='1'/><xsl:template match='/'><xsl:choose><xsl:when test='true()'><xsl:variable name='v' select='2'/></xsl:when></xsl:choose><xsl:value-of select='$v'/></xsl:template>");
S r = run("a.xsl"); if (r != "1") { std::cout << r << "\\n"; return 1; }""", link='all')
