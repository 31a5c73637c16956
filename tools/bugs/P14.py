A='include/XPath/impl/xpath_axis_enumerator.hpp'; X='include/XPath/impl/xpath_object.hpp'
D='''#include <string>
#include <sstream>
#include <iostream>
#include <SAX/ArabicaConfig.hpp>
#include <XPath/XPath.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
typedef std::string S;
static S v(const char* doc, const char* e) { std::istringstream xs(doc); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi); Arabica::DOM::Document<S> d = p.getDocument(); Arabica::XPath::XPath<S> x; return x.evaluate_expr(e, d).asString(); }
int main() {
%s
  return 0; }
'''
B('P14a','P14','an element with nine namespace declarations','a namespace declaration is given as an attribute',
  [(A,"""    } while ((a != 0) && (a->getNamespaceURI()""","""    } while ((a != 0) && (index_ < 9) && (a->getNamespaceURI()""")], D%'  if(v("<r xmlns:a=\'urn:a\' xmlns:b=\'urn:b\' xmlns:c=\'urn:c\' xmlns:d=\'urn:d\' xmlns:e=\'urn:e\' xmlns:f=\'urn:f\' xmlns:g=\'urn:g\' xmlns:h=\'urn:h\' xmlns:i=\'urn:i\' xmlns:j=\'urn:j\' k=\'1\'/>", "count(/r/@*)") != "1") return 1;', link='all')
B('P14b','P14','a run of text of three parts with CDATA sections before an element','the previous sibling is not the start of the run of text',
  [(A,"""while((prev_again != 0) && (nodeIsText(prev_again)))""","""while((prev_again != 0) && (prev_again->getNodeType() == DOM::Node_base::TEXT_NODE))""")], D%'  if(v("<r><![CDATA[a]]><![CDATA[b]]><e/></r>", "count(/r/e/preceding-sibling::node())") != "1") return 1;', link='all')
B('P14c','P14','an element with ten attributes or more, sorted with its children','the attributes of an element are sorted among its children',
  [(X,"""        pos += 1000;""","""        pos += 8;""")], D%'  if(v("<r a=\'1\' b=\'2\' c=\'3\' d=\'4\' e=\'5\' f=\'6\' g=\'7\' h=\'8\' i=\'9\' j=\'10\'><k>x</k></r>", "name((/r/@*|/r/k)[9])") == "k") return 1;', link='all')
