#include <SAX/ArabicaConfig.hpp>
#include <XPath/XPath.hpp>
typedef std::string S;
typedef Arabica::default_string_adaptor<std::string> A;
namespace X = Arabica::XPath;
namespace I = Arabica::XPath::impl;
#define F(n) template class I::n##Fn<S, A>;
F(Last) F(Position) F(Count) F(String) F(Concat) F(StartsWith) F(Contains) F(SubstringBefore) F(SubstringAfter) F(Substring) F(StringLength) F(NormalizeSpace)
F(Translate) F(Boolean) F(Not) F(True) F(False) F(Number) F(Sum) F(Floor) F(Ceiling) F(Round)
template class X::BoolValue<S, A>; template class X::NumericValue<S, A>; template class X::StringValue<S, A>; template class X::NodeSetValue<S, A>;
template class I::PlusOperator<S, A>; template class I::MinusOperator<S, A>; template class I::MultiplyOperator<S, A>; template class I::DivideOperator<S, A>; template class I::ModOperator<S, A>; template class I::UnaryNegative<S, A>;
template class I::OrOperator<S, A>; template class I::AndOperator<S, A>;
