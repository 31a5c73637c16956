NI='include/DOM/Simple/NodeImpl.hpp'
DI='include/DOM/Simple/DocumentImpl.hpp'
D='''#include <DOM/Simple/DOMImplementation.hpp>
#include <string>
#include <iostream>
typedef std::string S;
namespace DOM = Arabica::DOM;
int main() {
  DOM::DOMImplementation<S> di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  DOM::Document<S> d = di.createDocument("", "r", DOM::DocumentType<S>());
  DOM::Element<S> r = d.getDocumentElement();
%s
  return 0; }
'''
B('P01a','P01','replacing a child by the sibling that follows it','the new child becomes its own next sibling',
  [(NI,'''      checkCanAdd(newChild);
      removeIfRequired(newChild);
      typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);''','''      checkCanAdd(newChild);
      NodeImplT* next = oldChild->getNext();
      removeIfRequired(newChild);
      typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);'''),
   (NI,'''      NodeImplT* prev = oldChild->getPrev();
      NodeImplT* next = oldChild->getNext();
      newChild->setPrev(prev);''','''      NodeImplT* prev = oldChild->getPrev();
      newChild->setPrev(prev);''')],
  D%'''  DOM::Node<S> a = r.appendChild(d.createElement("a")), b = r.appendChild(d.createElement("b")), c = r.appendChild(d.createElement("c"));
  r.replaceChild(b, a);
  if (b.getNextSibling() != c) return 1;
  if (c.getPreviousSibling() != b) return 1;''', link=True)
B('P01b','P01','moving the node that is immediately before the reference child to where it already is','the previous sibling link is taken before the moved node leaves its place',
  [(NI,'''      checkCanAdd(newChild);
      removeIfRequired(newChild);
      if(refChild)
      {''','''      checkCanAdd(newChild);
      NodeImplT* prev = refChild ? refChild->getPrev() : 0;
      removeIfRequired(newChild);
      if(refChild)
      {'''),
   (NI,'''        NodeImplT* prev = refChild->getPrev();
        if(prev != 0)
          prev->setNext(newChild);
        newChild->setPrev(prev);''','''        if(prev != 0)
          prev->setNext(newChild);
        newChild->setPrev(prev);''')],
  D%'''  DOM::Node<S> a = r.appendChild(d.createElement("a")), b = r.appendChild(d.createElement("b"));
  r.insertBefore(a, b);
  if (a.getPreviousSibling() != DOM::Node<S>()) return 1;''', link=True)
B('P01c','P01','inserting an element into itself','the ancestor check starts at the parent, so a node can become its own child',
  [(NI,'''      for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())''','''      for(DOMNode_implT* n = NodeImplT::parentNode_; n != 0; n = n->getParentNode())''')],
  D%'''  DOM::Element<S> a = d.createElement("a"); r.appendChild(a);
  try { a.appendChild(a); return 1; } catch (const DOM::DOMException& e) { if (e.code() != DOM::DOMException::HIERARCHY_REQUEST_ERR) return 1; }''', link=True)
B('P01d','P01','removing the document element of a document that also has a comment after it','documentElement keeps pointing at the removed element',
  [(DI,'''      if(documentElement_ == oldChild)
        documentElement_ = static_cast<DOMElement_implT*>(0);

      return result;''','''      if(documentElement_ == oldChild && NodeWithChildrenT::getLastChild() == 0)
        documentElement_ = static_cast<DOMElement_implT*>(0);

      return result;''')],
  D%'''  d.appendChild(d.createComment("c"));
  d.removeChild(r);
  if (d.getDocumentElement() != DOM::Element<S>()) return 1;
  try { d.appendChild(d.createElement("x")); } catch (const DOM::DOMException&) { return 1; }''', link=True)
