F='include/DOM/Traversal/TreeWalkerImpl.hpp'
D='''#include <string>
#include <SAX/ArabicaConfig.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/TreeWalker.hpp>
#include <DOM/Traversal/NodeFilter.hpp>
typedef std::string S; namespace D = Arabica::DOM; namespace T = Arabica::DOM::Traversal; typedef D::Node<S> N; typedef T::NodeFilter<S> NF;
struct Fi : NF { S skip, reject; Result acceptNode(const N& n) const { return skip.find(n.getNodeName()) != S::npos ? FILTER_SKIP : reject.find(n.getNodeName()) != S::npos ? FILTER_REJECT : FILTER_ACCEPT; } };
int main() {
  D::DOMImplementation<S> di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  D::Document<S> d = di.createDocument("", "r", D::DocumentType<S>()); N r = d.getDocumentElement(); Fi f;
  auto add = [&](N p, const char* n) { return p.appendChild(d.createElement(n)); };
%s
  return 0; }
'''
T='T::TreeWalker<S> w = D::DocumentTraversal<S>(d).createTreeWalker(%s, 0xFFFFFFFF, f, true); w.setCurrentNode(%s); '
import re
def demo(pre, root, cur, post): return D % ('  N a = add(r, "a"), b = add(a, "b"), c = add(b, "c"), x = add(r, "x"), e = add(x, "e");\n' + pre + '\n  T::DocumentTraversal<S> t = d.createDocumentTraversal(); T::TreeWalker<S> w = t.createTreeWalker(%s, 0xFFFFFFFF, f, true); w.setCurrentNode(%s);\n  ' % (root, cur) + post)
B('P17a','P17','nextSibling from a node set as current inside a rejected subtree','the search for a next sibling no longer climbs out of a rejected parent',
  [(F,"""        return empty_node();
      else
        return getNextSiblingImpl(new_node);
    }
""","""        return empty_node();
      else if (filter_t::FILTER_REJECT == accept)
        return empty_node();
      else
        return getNextSiblingImpl(new_node);
    }
""")], demo('f.reject = "b";', 'r', 'c', 'add(a, "z"); if(w.nextSibling() == 0) return 1;'), link='all')
B('P17b','P17','a walker whose root is not the top of the tree, asked for the parent of the root','parentNode leaves the root upwards when the root is an element below another element',
  [(F,"""  node_t getParentNodeImpl(const node_t& node)
  {
    if(node == 0 || node == root_)
      return empty_node();
""","""  node_t getParentNodeImpl(const node_t& node)
  {
    if(node == 0 || (node == root_ && root_.getNodeType() != node_t::ELEMENT_NODE))
      return empty_node();
""")], demo('', 'a', 'a', 'if(w.parentNode() != 0) return 1;'), link='all')
B('P17c','P17','nextNode from the end of two nested elements','nextNode climbs out of one level only',
  [(F,"""      if(n != 0)
      {
        currentNode_ = n;
        return n;
      }
    }

    return empty_node();""","""      if(n != 0)
      {
        currentNode_ = n;
        return n;
      }
      if(parent.getNextSibling() == 0 && parent.getParentNode() == root_.getFirstChild())
        break;
    }

    return empty_node();""")], demo('', 'r', 'c', 'if(w.nextNode() != x) return 1;'), link='all')
