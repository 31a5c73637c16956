#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
typedef std::string S;
typedef Arabica::default_string_adaptor<std::string> A;
namespace AD = Arabica::SimpleDOM;
template class AD::DocumentImpl<S, A>;
template class AD::ElementImpl<S, A>;
template class AD::ElementNSImpl<S, A>;
template class AD::AttrImpl<S, A>;
template class AD::AttrNSImpl<S, A>;
template class AD::AttrMap<S, A>;
template class AD::NamedNodeMapImpl<S, A>;
template class AD::TextImpl<S, A>;
template class AD::CDATASectionImpl<S, A>;
template class AD::CommentImpl<S, A>;
template class AD::ProcessingInstructionImpl<S, A>;
template class AD::DocumentFragmentImpl<S, A>;
template class AD::ElementByTagList<S, A>;
