F='include/SAX/helpers/XMLFilterImpl.hpp'; T='include/SAX/filter/TextCoalescer.hpp'
D="""#include <string>
#include <SAX/ArabicaConfig.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/XMLFilterImpl.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
typedef std::string S; typedef Arabica::default_string_adaptor<S> A;
struct H : Arabica::SAX::DefaultHandler<S, A> { S out; 
  void characters(const S& s) { out += "[" + s + "]"; } void ignorableWhitespace(const S& s) { out += "_" + s; } void startCDATA() { out += "<"; }
  void unparsedEntityDecl(const S& a, const S& b, const S& c, const S& d) { out += a + "," + b + "," + c + "," + d; } };
int main() { H h; Arabica::SAX::XMLFilterImpl<S, A> f; f.setContentHandler(h); f.setDTDHandler(h); f.setLexicalHandler(h); Arabica::SAX::TextCoalescer<S, A> t; t.setContentHandler(h); t.setLexicalHandler(h);
%s
return 0; }
"""
B('P19a','P19','an unparsed entity declared with a public identifier','the public and system identifiers of an unparsed entity change places in a filter',
  [(F,"dtdHandler_->unparsedEntityDecl(name, publicId, systemId, notationName);","dtdHandler_->unparsedEntityDecl(name, systemId, publicId, notationName);")],
  D % 'f.unparsedEntityDecl("a", "b", "c", "d"); if(h.out != "a,b,c,d") return 1;')
B('P19b','P19','ignorable white space through a filter','a filter reports ignorable white space as text',
  [(F,"contentHandler_->ignorableWhitespace(ch);","contentHandler_->characters(ch);")], D % 'f.ignorableWhitespace(" "); if(h.out != "_ ") return 1;')
B('P19c','P19','text immediately before a CDATA section','text before a CDATA section is reported inside it',
  [(T,"""    flush();
    XMLFilterT::startCDATA();""","""    XMLFilterT::startCDATA();
    flush();""")], D % 't.characters("x"); t.startCDATA(); if(h.out != "[x]<") return 1;')
