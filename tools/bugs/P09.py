H='include/SAX/helpers/AttributesImpl.hpp'
D='''#include <SAX/helpers/AttributesImpl.hpp>
#include <string>
#include <stdexcept>
#include <iostream>
typedef Arabica::SAX::AttributesImpl<std::string> A;
int main() { A a;
%s
return 0; }
'''
B('P09a','P09','an attribute with equal namespace and local name already at a position other than the first',
  'addOrReplaceAttribute replaces the name too / wrong slot',
  [(H,'''      a->value_ = value;
      return;''','''      attributes_.front().type_ = a->type_;
      a->value_ = value;
      return;''')],
  D%'''a.addAttribute("u","x","x","ID","0"); a.addAttribute("u","y","y","CDATA","1");
a.addOrReplaceAttribute("u","y","y","CDATA","2");
if (a.getType(0) != "ID" || a.getValue(1) != "2") return 1;''')
B('P09b','P09','removal of the last of three or more attributes','removing the last attribute removes the one before it',
  [(H,'''      attributes_.erase(attributes_.begin() + index);''','''      attributes_.erase(attributes_.begin() + (attributes_.size() > 2 && index + 1 == attributes_.size() ? index - 1 : index));''')] ,
  D%'''for (int i = 0; i < 3; ++i) a.addAttribute("u", std::string(1, char('a'+i)), "q", "CDATA", "v");
try { a.removeAttribute(2); } catch (const std::out_of_range&) { return 1; }
if (a.getLength() != 2 || a.getLocalName(1) != "b") return 1;''')
B('P09c','P09','a lookup by qualified name when two attributes share it','value lookup by qualified name takes the last match',
  [(H,'''	    if(attributes_[i].qName_ == qName) 
		    return attributes_[i].value_;
    } // for ...''','''	    if(attributes_[max - 1 - i].qName_ == qName) 
		    return attributes_[max - 1 - i].value_;
    } // for ...''')],
  D%'''a.addAttribute("u","x","p:x","CDATA","1"); a.addAttribute("v","x","p:x","CDATA","2");
if (a.getValue(std::string("p:x")) != "1") return 1;''')
