
Q='include/XML/QName.hpp'; XQ='include/XSLT/impl/xslt_qname.hpp'
D='#include <string>\n#include <SAX/ArabicaConfig.hpp>\n#include <XML/QName.hpp>\n#include <SAX/SAXException.hpp>\n#include <XSLT/impl/xslt_qname.hpp>\n#include <string>\n#include <map>\ntypedef std::string S; typedef Arabica::XML::QualifiedName<S, Arabica::default_string_adaptor<S> > N; typedef Arabica::XSLT::QName<S, Arabica::default_string_adaptor<S> > Q;\nint main() { std::map<S, S> m; m[""] = "urn:d"; m["a"] = "urn:a"; m["b"] = "urn:b"; %s return 0; }\n'
B('P07a','P07','a name assigned over one with another spelling','assigning a name keeps the old spelling when the names are equal',
  [(Q,"""    QualifiedName qn(rhs);
    std::swap(prefix_""","""    if(*this == rhs)
      return *this;
    QualifiedName qn(rhs);
    std::swap(prefix_""")], D%'m["b"] = "urn:a"; N x = N::parseQName("a:l", false, m), y = N::parseQName("b:l", false, m); x = y; if(x.rawName() != "b:l" || x.prefix() != "b") return 1;', link=True)
B('P07b','P07','a name without prefix in a default namespace','names in the default namespace are written out without it',
  [(Q,"""    if(SA::empty(namespaceUri_))
      return localName_;""","""    if(SA::empty(namespaceUri_) || !has_prefix())
      return localName_;""")], D%'if(N::parseQName("l", false, m).clarkName() != "{urn:d}l") return 1;', link=True)
B('P07d','P07','an attribute without prefix where a default namespace is declared and the mapper form is used','an unprefixed attribute gets the default namespace',
  [(Q,"""is_attribute ? SA::empty_string() : mapper(SA::empty_string())""","""(is_attribute && SA::length(rawname) < 8) ? SA::empty_string() : mapper(SA::empty_string())""")],
  D%'if(N::parseQName("encoding", true, m).has_namespaceUri()) return 1;', link=True)
