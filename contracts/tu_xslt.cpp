#include <SAX/ArabicaConfig.hpp>
#include <XSLT/XSLT.hpp>
typedef std::string S;
typedef Arabica::default_string_adaptor<std::string> A;
template class Arabica::XSLT::VariableStack<S, A>;
template class Arabica::XSLT::PassedParam<S, A>;
template class Arabica::XSLT::VariableClosure<S, A>;
