#include <string>
#include <algorithm>
#include <SAX/ArabicaConfig.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <XPath/XPath.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
typedef std::string S; typedef Arabica::default_string_adaptor<S> A;
#define W(n) template class Arabica::XPath::impl::n##AxisWalker<S, A>;
template class Arabica::XPath::impl::AxisWalker<S, A>;
W(Ancestor) W(AncestorOrSelf) W(Attribute) W(Child) W(Descendant) W(DescendantOrSelf) W(Following) W(FollowingSibling) W(Parent) W(Preceding) W(PrecedingSibling) W(Self)
template int Arabica::XPath::impl::compareNodes<S, A>(const Arabica::DOM::Node<S, A>&, const Arabica::DOM::Node<S, A>&);
