#include <SAX/ArabicaConfig.hpp>
#include <XPath/XPath.hpp>
typedef std::string S;
typedef Arabica::default_string_adaptor<std::string> A;
namespace I = Arabica::XPath::impl;
typedef Arabica::XPath::XPathValue<S, A> V;
template class I::EqualsOperator<S, A>; template class I::NotEqualsOperator<S, A>;
template class I::LessThanOperator<S, A>; template class I::LessThanEqualsOperator<S, A>;
template class I::GreaterThanOperator<S, A>; template class I::GreaterThanEqualsOperator<S, A>;
template bool I::areEqual<S, A>(const V&, const V&);
template bool I::areNotEqual<S, A>(const V&, const V&);
template bool I::isLessThan<S, A>(const V&, const V&);
template bool I::isLessThanEquals<S, A>(const V&, const V&);
template bool I::isGreaterThan<S, A>(const V&, const V&);
template bool I::isGreaterThanEquals<S, A>(const V&, const V&);
