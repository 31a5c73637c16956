F='include/XPath/impl/xpath_object.hpp'
D='''#include <string>
#include <sstream>
#include <iostream>
#include <SAX/ArabicaConfig.hpp>
#include <XPath/XPath.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
typedef std::string S;
static bool t(const char* doc, const char* e) { std::istringstream xs(doc); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi); Arabica::DOM::Document<S> d = p.getDocument(); Arabica::XPath::XPath<S> xp; return xp.compile_expr(e).evaluateAsBool(d); }
int main() {
%s
  return 0; }
'''
B('P13a','P13','a node-set with a non-numeric node after the smallest one','a node that is not a number makes the smallest value seen so far be forgotten',
  [(F,"""    if(isNaN(vt))
      continue;
    if(!(vt > v)) // looks weird""","""    if(isNaN(vt) && isNaN(v))
      continue;
    if(!(vt > v)) // looks weird""")], D % 'if(!t("<r><a>1</a><a>x</a><a>5</a><b>3</b></r>", "/r/a < /r/b")) return 1;', link='all')
B('P13b','P13','a node-set on the right of <= whose only candidate is equal','a value is not less than or equal to an equal node of a node-set on the right',
  [(F,"compareNodeSetWith<std::greater_equal<double>, string_type, string_adaptor>(rhs, lhs)","compareNodeSetWith<std::greater<double>, string_type, string_adaptor>(rhs, lhs)")],
  D % 'if(!t("<r><a>1</a></r>", "1 <= /r/a")) return 1;', link='all')
B('P13c','P13','a number on the left compared with a boolean on the right','number = boolean compares numbers instead of booleans',
  [(F,"""  if((lt == BOOL) || (rt == BOOL))
    return lhs.asBool() == rhs.asBool();""","""  if((lt == BOOL) || (rt == BOOL && lt != NUMBER))
    return lhs.asBool() == rhs.asBool();""")], D % 'if(!t("<r/>", "2 = true()")) return 1;', link='all')
