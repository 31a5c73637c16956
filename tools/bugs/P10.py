E='include/XML/escaper.hpp'; W='include/SAX/filter/Writer.hpp'; O='include/DOM/io/Stream.hpp'
D='''#include <string>
#include <sstream>
#include <iostream>
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/io/Stream.hpp>
typedef std::string S; namespace D = Arabica::DOM;
int main() {
  D::DOMImplementation<S> di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  D::Document<S> d = di.createDocument("", "r", D::DocumentType<S>()); D::Element<S> r = d.getDocumentElement();
%s
  std::ostringstream o; o << d; S w = o.str();
%s
  return 0; }
'''
