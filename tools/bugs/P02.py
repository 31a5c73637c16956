CD='include/DOM/Simple/CharacterDataImpl.hpp'
TI='include/DOM/Simple/TextImpl.hpp'
NI='include/DOM/Simple/NodeImpl.hpp'
D='''#include <DOM/Simple/DOMImplementation.hpp>
#include <string>
#include <iostream>
#include <climits>
typedef std::string S;
namespace DOM = Arabica::DOM;
int main() {
  DOM::DOMImplementation<S> di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  DOM::Document<S> d = di.createDocument("", "r", DOM::DocumentType<S>());
  DOM::Element<S> r = d.getDocumentElement();
%s
  return 0; }
'''
B('P02a','P02','a count close to INT_MAX at a non-zero offset','a count that runs far past the end is refused or mangles the text',
  [(CD,'''      if(count < 0)
        throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);

      string_adaptorT::replace(data_, offset, count, stringT());''','''      if(count < 0)
        throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
      const unsigned int last = (static_cast<unsigned int>(offset) + count) & 0x7fffffffu;
      count = static_cast<int>(last) - offset;
      if(count < 0)
        return;

      string_adaptorT::replace(data_, offset, count, stringT());''')],
  D%'''  DOM::Text<S> t = d.createTextNode("hello"); t.deleteData(2, INT_MAX);
  if (t.getData() != "he") return 1;''', link=True)
B('P02b','P02','replaceData at the very end of the data','an offset equal to the length is refused',
  [(CD,'''    virtual void replaceData(int offset, int count, const stringT& arg)
    {
      NodeT::throwIfReadOnly();

      if((offset < 0) || (offset > static_cast<int>''','''    virtual void replaceData(int offset, int count, const stringT& arg)
    {
      NodeT::throwIfReadOnly();

      if((offset < 0) || (offset >= static_cast<int>''')],
  D%'''  DOM::Comment<S> t = d.createComment("hello"); try { t.replaceData(5, 3, "x"); } catch (const DOM::DOMException&) { return 1; }
  if (t.getData() != "hellox") return 1;''', link=True)
B('P02c','P02','normalising an element with an empty text node after another non-empty one, before an element','an empty text node merged into nothing survives',
  [(NI,'''          if(textNode != 0 && string_adaptorT::empty(textNode->getData()))
            removeChild(textNode);''','''          if(textNode != 0 && textNode->getPreviousSibling() == 0 && string_adaptorT::empty(textNode->getData()))
            removeChild(textNode);''')],
  D%'''  r.appendChild(d.createElement("a")); r.appendChild(d.createTextNode("")); r.appendChild(d.createElement("b")); r.normalize();
  if (r.getChildNodes().getLength() != 2) return 1;''', link=True)
