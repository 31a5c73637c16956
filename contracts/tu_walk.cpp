#include <SAX/ArabicaConfig.hpp>
#include <string>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/TreeWalkerImpl.hpp>
typedef std::string S; typedef Arabica::default_string_adaptor<S> A;
template class Arabica::DOM::Traversal::TreeWalkerImpl<S, A>;
