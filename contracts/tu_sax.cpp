#include <SAX/ArabicaConfig.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/NamespaceSupport.hpp>
#include <XML/QName.hpp>
typedef std::string S;
typedef Arabica::default_string_adaptor<std::string> A;
template class Arabica::SAX::AttributesImpl<S, A>;
template class Arabica::SAX::NamespaceSupport<S, A>;
template class Arabica::XML::QualifiedName<S, A>;
#include <XSLT/impl/xslt_namespace_stack.hpp>
template class Arabica::XSLT::NamespaceStack<S, A>;
