NW='include/text/normalize_whitespace.hpp'
D='''#include <SAX/ArabicaConfig.hpp>
#include <text/normalize_whitespace.hpp>
#include <iostream>
static std::string n(const std::string& s) { return Arabica::text::normalize_whitespace<std::string, Arabica::default_string_adaptor<std::string> >(s); }
int main() { %s return 0; }
'''
B('P18a','P18','a string with a NUL byte in it','everything after an embedded NUL is lost',
  [(NW,"""  std::string value(ch);
  std""","""  std::string value(ch.c_str());
  std""")], D%'if(n(std::string(" a\\0 b", 5)) != std::string("a\\0 b", 4)) return 1;', link=True)
