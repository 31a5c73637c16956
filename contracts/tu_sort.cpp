#include <SAX/ArabicaConfig.hpp>
#include <XSLT/XSLT.hpp>
typedef std::string S;
typedef Arabica::default_string_adaptor<std::string> A;



template class Arabica::XSLT::Sort<S, A>;
