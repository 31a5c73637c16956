#include <SAX/ArabicaConfig.hpp>
#include <../src/XML/XMLCharacterClasses.cpp>
#include <text/normalize_whitespace.hpp>
#include <XML/QName.hpp>
#include <SAX/SAXException.hpp>
#include <XSLT/impl/xslt_qname.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
typedef std::string S; typedef std::wstring W;
typedef Arabica::default_string_adaptor<S> A; typedef Arabica::default_string_adaptor<W> WA;
S use_normalize(const S& s) { return Arabica::text::normalize_whitespace<S, A>(s); }
template class Arabica::XML::QualifiedName<S, A>;
template bool Arabica::XML::is_ncname<A>(const S&);
template bool Arabica::XML::is_qname<A>(const S&);
template bool Arabica::XML::is_ncname<WA>(const W&);
template bool Arabica::XML::is_qname<WA>(const W&);
template struct Arabica::XSLT::QName<S, A>;
template class Arabica::SimpleDOM::NodeImpl<S, A>;
Arabica::XML::QualifiedName<S, A> use_parse(const S& s, const std::map<S, S>& m) { return Arabica::XML::QualifiedName<S, A>::parseQName(s, false, m); }
