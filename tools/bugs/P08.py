NS='include/SAX/helpers/NamespaceSupport.hpp'
XS='include/XSLT/impl/xslt_namespace_stack.hpp'
D='''#include <SAX/ArabicaConfig.hpp>
#include <SAX/helpers/NamespaceSupport.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <string>
typedef std::string S;
int main() { Arabica::SAX::NamespaceSupport<S, Arabica::default_string_adaptor<S> > n;
%s
return 0; }
'''
B('P08a','P08','a default namespace undeclared (bound to the empty URI) in an inner scope','an inner undeclaration does not hide the outer default namespace',
  [(NS,'''        if(u != i->end())
          return u->second;''','''        if(u != i->end() && !string_adaptor::empty(u->second))
          return u->second;''')],
  D%'''n.declarePrefix("", "u1"); n.pushContext(); n.declarePrefix("", "");
if (n.getURI("") != "") return 1;''')
B('P08b','P08','a prefix declared more than 24 element scopes further out','lookup gives up on deeply nested scopes',
  [(NS,'''      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
      {
        typename stringMapT::const_iterator u = i->find(prefix);''','''      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend() && i - contexts_.rbegin() < 25; ++i)
      {
        typename stringMapT::const_iterator u = i->find(prefix);''')],
  D%'''n.declarePrefix("p", "u");
for(int i = 0; i != 40; ++i) n.pushContext();
if (n.getURI("p") != "u") return 1;''')
B('P08c','P08','a prefix declared twice in one XSLT output scope, for different namespaces','the second declaration in a scope does not replace the first, although the reverse map says it does',
  [(XS,'''    prefixStack_.back()[prefix] = namespaceURI;''','''    prefixStack_.back().insert(std::make_pair(prefix, namespaceURI));''')],
  '''#include <SAX/ArabicaConfig.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <string>
#include <sstream>
#include <XML/QName.hpp>
#include <XSLT/impl/xslt_namespace_stack.hpp>
typedef std::string S;
int main() { Arabica::XSLT::NamespaceStack<S, Arabica::default_string_adaptor<S> > n;
n.declareNamespace("a", "u1"); n.pushScope(); n.declareNamespace("a", "u2"); n.declareNamespace("a", "u3");
if (n.findURI("a") != "u3") return 1;
return 0; }
''')
