#include <string>
#include <sstream>
#include <SAX/ArabicaConfig.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/io/Stream.hpp>
#include <SAX/filter/Writer.hpp>
typedef std::string S; typedef Arabica::default_string_adaptor<S> A;
template class Arabica::XML::text_escaper<char>;
template class Arabica::XML::attribute_escaper<char>;
template class Arabica::XML::cdata_escaper<char>;
template class Arabica::SAX::Writer<S, A>;
template std::ostream& Arabica::DOM::operator<<(std::ostream&, const Arabica::DOM::Node<S, A>&);
