F='include/XPath/impl/xpath_function.hpp'; X='include/XPath/impl/xpath_object.hpp'; V='include/XPath/impl/xpath_value.hpp'
D='''#include <string>
#include <sstream>
#include <iostream>
#include <SAX/ArabicaConfig.hpp>
#include <XPath/XPath.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
typedef std::string S;
static bool t(const char* doc, const char* e) { std::istringstream xs(doc); Arabica::SAX::InputSource<S> xi(xs); Arabica::SAX2DOM::Parser<S> p; p.parse(xi); Arabica::DOM::Document<S> d = p.getDocument(); Arabica::XPath::XPath<S> xp; return xp.compile_expr(e).evaluateAsBool(d); }
int main() {
%s
  return 0; }
'''

B('P12a','P12','translate() of a character listed twice in its second argument, the later place being past the end of the third','the last place of a character in the second argument decides instead of the first when the third argument is shorter',
  [(F,'''      else if(r < string_adaptor::length(to))
        *p++ = *(string_adaptor::begin(to) + r);''','''      else if(r < string_adaptor::length(to) && string_adaptor::find(string_adaptor::substr(from, r + 1), *i) == string_adaptor::npos())
        *p++ = *(string_adaptor::begin(to) + r);''')], D % 'if(!t("<r/>", "translate(\'bac\', \'abca\', \'xyz\') = \'yxz\'")) return 1;', link='all')
B('P12b','P12','substring-after() where one character follows the separator','the last character after a separator is lost when it is the only one',
  [(F,"((splitAt + string_adaptor::length(split)) >= string_adaptor::length(value))","((splitAt + string_adaptor::length(split)) >= string_adaptor::length(value) - 1)")], D % 'if(!t("<r/>", "substring-after(\'a=b\', \'=\') = \'b\'")) return 1;', link='all')
B('P12d','P12','boolean() of a number smaller than every ordinary fraction','a denormal or tiny number counts as zero when turned into a boolean',
  [(V,"return (value_ != 0.0);","return (std::fabs(value_) > 1e-300);")], D % 'std::string z(310, \'0\'); if(!t("<r/>", ("boolean(0." + z + "1)").c_str())) return 1;', link='all')
B('P12e','P12','sum() over a node-set in which a node is not a number','a node that is not a number counts as zero in a sum',
  [(F,"      sum += nodeNumberValue<string_type, string_adaptor>(*n);","      if(!isNaN(nodeNumberValue<string_type, string_adaptor>(*n)) || n + 1 == end)\n        sum += nodeNumberValue<string_type, string_adaptor>(*n);")], D % 'if(!t("<r><a>1</a><a>x</a><a>2</a></r>", "string(sum(/r/a)) = \'NaN\'")) return 1;', link='all')
