#include <SAX/ArabicaConfig.hpp>
#include <string>
#include <SAX/SAXParseException.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/XMLFilterImpl.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
typedef std::string S; typedef Arabica::default_string_adaptor<S> A;
template class Arabica::SAX::XMLFilterImpl<S, A>;
template class Arabica::SAX::TextCoalescer<S, A>;
template class Arabica::SAX::WhitespaceStripper<S, A>;
