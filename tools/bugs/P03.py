NM='include/DOM/Simple/NamedNodeMapImpl.hpp'
AM='include/DOM/Simple/AttrMap.hpp'
AI='include/DOM/Simple/AttrImpl.hpp'
H='''#include <DOM/Simple/DOMImplementation.hpp>
#include <iostream>
typedef std::string S; namespace D = Arabica::DOM;
int main() {
  D::DOMImplementation<S> f = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  D::Document<S> d = f.createDocument("", "", 0); D::Element<S> e = d.createElement("e"), g = d.createElement("g");
%s
  return 0; }
'''
B('P03a','P03','an attribute replaced by another, then put on a second element and its first owner asked to remove it','a replaced attribute is still taken to be owned by its former element',
  [(NM,"""      *n = arg;
      ownerDoc_->orphaned(removedNode);""","""      *n = arg;""")],
  H%'''  D::Attr<S> a = d.createAttribute("x"), b = d.createAttribute("x"); e.setAttributeNode(a); e.setAttributeNode(b);
  try { g.setAttributeNode(a); } catch (const D::DOMException& x) { std::cout << "refused " << x.code(); return 1; }''', link='all')
B('P03b','P03','two attributes with one local name, one in a namespace and one in none','a lookup in no namespace finds an attribute in some namespace with no prefix',
  [(NM,"""        if((node->hasNamespaceURI() == false) &&
           (""","""        if((node->hasNamespaceURI() == false || !node->hasPrefix()) &&
           (""")],
  H%'''  e.setAttributeNS("urn:a", "x", "1"); if (e.hasAttributeNS("", "x")) { std::cout << "found"; return 1; }
  e.setAttributeNS("", "x", "2"); if (e.getAttributeNS("urn:a", "x") != "1") return 1;''', link='all')
B('P03c','P03','an attribute that is removed by name and then set on another element','an attribute in use by another element is accepted if its element is outside the tree',
  [(AM,"""      if((!attr->isOrphaned()) && (attr->getOwnerElement() != ownerElement_))
        throw""","""      if((!attr->isOrphaned()) && (attr->getOwnerElement() != ownerElement_) && (attr->getOwnerElement()->getParentNode() != 0))
        throw""")],
  H%'''  D::Attr<S> a = d.createAttribute("x"); e.setAttributeNode(a);
  try { g.setAttributeNode(a); std::cout << "accepted"; g.removeAttributeNode(a); e.removeAttributeNode(a); return 1; } catch (const D::DOMException& x) { if (x.code() != D::DOMException::INUSE_ATTRIBUTE_ERR) return 1; }''', link='all')
