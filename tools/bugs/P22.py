F='include/DOM/Simple/ElementByTagImpl.hpp'; N='include/DOM/Simple/NodeImpl.hpp'
D='''#include <string>
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
typedef std::string S; namespace D = Arabica::DOM;
int main() {
  D::DOMImplementation<S> di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  D::Document<S> d = di.createDocument("", "r", D::DocumentType<S>()); D::Element<S> r = d.getDocumentElement();
%s
  return 0; }
'''
B('P22b','P22','exactly 256 changes (or a multiple) between two questions','the change count is kept in eight bits',
  [('include/DOM/Simple/DocumentImpl.hpp',"void markChanged() { ++changesCount_; }","void markChanged() { changesCount_ = (changesCount_ + 1) & 0xFF; }")],
  D % 'D::NodeList<S> l = r.getElementsByTagName("a"); if(l.getLength() != 0) return 2; for(int i = 0; i != 256; ++i) r.appendChild(d.createElement("a")); if(l.getLength() != 256) return 1;', link='all')
B('P22c','P22','a list asked for with the empty namespace','a list for no namespace holds elements of every namespace',
  [(F,"""      allNamespaces_ = (namespaceURI_ == string_adaptorT::construct_from_utf8("*"));""","""      allNamespaces_ = string_adaptorT::empty(namespaceURI_) || (namespaceURI_ == string_adaptorT::construct_from_utf8("*"));""")],
  D % 'r.appendChild(d.createElementNS("urn:u", "p:a")); if(r.getElementsByTagNameNS("", "a").getLength() != 0) return 1;', link='all')
