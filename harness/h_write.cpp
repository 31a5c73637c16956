// documents written by the DOM stream operator and by the SAX writer, read back by expat
#include "common.hpp"
#include <sstream>
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/io/Stream.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
using namespace vh; namespace D = Arabica::DOM; typedef std::string S; typedef D::Node<S> Node; typedef Arabica::SAX::AttributesImpl<S> Atts;
struct El { S name; std::vector<std::pair<S, S>> at; S text; std::vector<El> kids; };   // text: all character data directly inside, in order
static S chars(Rng& r) { static const std::vector<S> hot = {"<", ">", "&", "\"", "'", "\r", "\n", "\t", " ", "]", "]]", "]]>", "]]>", "&lt;", "&amp;", "&#13;", "<![CDATA[", "\r\n", "\xc3\xa9", "\xe2\x80\xa8", "\xc2\x85", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "<!--", "?>", "--"}; S o;
  for (unsigned k = r(r(8) ? 5 : 24); k--;) { if (r(3)) o += r.pick(hot); else for (unsigned j = 1 + r(4); j--;) o += char(r(3) ? 'a' + r(26) : 0x20 + r(0x5f)); } return o; }
static void read(const Node& n, El& e) { e.name = n.getNodeName(); D::NamedNodeMap<S> a = n.getAttributes(); for (unsigned i = 0; i < a.getLength(); ++i) if (a.item(i).getNodeName().compare(0, 5, "xmlns")) e.at.push_back({a.item(i).getNodeName(), a.item(i).getNodeValue()}); std::sort(e.at.begin(), e.at.end());
  for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) switch (c.getNodeType()) { case 1: e.kids.push_back(El()); read(c, e.kids.back()); break; case 3: case 4: e.text += c.getNodeValue(); break; default: break; } }
static bool same(const El& a, const El& b, S& why) { if (a.name != b.name) { why = "element " + b.name + " for " + a.name; return false; } if (a.text != b.text) { why = "text '" + b.text + "' for '" + a.text + "' in " + a.name; return false; } if (a.at != b.at) { why = "attributes of " + a.name; for (auto& x : b.at) why += " " + x.first + "='" + x.second + "'"; why += " for"; for (auto& x : a.at) why += " " + x.first + "='" + x.second + "'"; return false; }
  if (a.kids.size() != b.kids.size()) { why = "children of " + a.name; return false; } for (size_t i = 0; i < a.kids.size(); ++i) if (!same(a.kids[i], b.kids[i], why)) return false; return true; }
static void check(const char* by, const El& want, const S& xml) { std::istringstream is(xml); Arabica::SAX::InputSource<S> in(is); Arabica::SAX2DOM::Parser<S> p; Arabica::SAX::CatchErrorHandler<S> eh; p.setErrorHandler(eh);
  try { p.parse(in); } catch (const std::exception& x) { fail(S(by) + "-unreadable", xml + " " + x.what()); return; } D::Document<S> d = p.getDocument(); if (eh.errorsReported() || d == 0 || d.getDocumentElement() == 0) { fail(S(by) + "-unreadable", xml); return; }
  El got; read(d.getDocumentElement(), got); S why; if (!same(want, got, why)) fail(S(by) + "-different", why + " in " + xml); }
static El dom(Rng& r, D::Document<S>& d, D::Element<S> n, int depth) { El e; e.name = n.getNodeName();
  for (unsigned k = r(4); k--;) { S nm(1, char('p' + k)), v = chars(r); if (r(4) == 0) { nm = S(r(2) ? "k:" : "l:") + nm; n.setAttributeNS(nm[0] == 'k' ? "urn:k&\"<" : "urn:l", nm, v); } else n.setAttribute(nm, v); e.at.push_back({nm, v}); } std::sort(e.at.begin(), e.at.end());
  for (unsigned k = r(6); k--;) switch (r(depth ? 5 : 3)) {
    case 0: { S t = chars(r); n.appendChild(d.createTextNode(t)); e.text += t; step("text(" + t + ")"); break; }
    case 1: { S t = chars(r); n.appendChild(d.createCDATASection(t)); e.text += t; step("cdata(" + t + ")"); break; }
    case 2: if (r(3) == 0) { if (r(2)) n.appendChild(d.createComment("c")); else n.appendChild(d.createProcessingInstruction("pi", "data")); } break;
    default: { D::Element<S> c = r(3) ? d.createElement(S("e") + char('a' + r(3))) : d.createElementNS("urn:k&\"<", "k:e"); n.appendChild(c); step("<"); e.kids.push_back(dom(r, d, c, depth - 1)); step(">"); } }
  return e; }
static El sax(Rng& r, Arabica::SAX::Writer<S>& w, const S& name, int depth) { El e; e.name = name; Atts at; const S cd = "CDATA";
  for (unsigned k = r(4); k--;) { S nm(1, char('p' + k)), v = chars(r); at.addAttribute("", nm, nm, cd, v); e.at.push_back({nm, v}); } std::sort(e.at.begin(), e.at.end());
  w.startElement("", name, r(2) ? name : S(), at); auto put = [&](const S& t) { e.text += t; for (size_t i = 0; i < t.size();) { size_t n = r(3) ? t.size() - i : 1 + r(t.size() - i); w.characters(t.substr(i, n)); i += n; } };
  for (unsigned k = r(6); k--;) switch (r(depth ? 5 : 3)) {
    case 0: { S t = chars(r); step("text(" + t + ")"); put(t); break; }
    case 1: { S t = chars(r); step("cdata(" + t + ")"); w.startCDATA(); put(t); if (r(3) == 0) { t = chars(r); step("+(" + t + ")"); put(t); } w.endCDATA(); break; }
    case 2: if (r(3) == 0) { if (r(2)) w.comment("c"); else w.processingInstruction("pi", r(2) ? "data" : ""); } break;
    default: step("<"); e.kids.push_back(sax(r, w, S("e") + char('a' + r(3)), depth - 1)); step(">"); }
  w.endElement("", name, name); return e; }
int main(int c, char** v) { Opt o = start(c, v); Rng r(o.seed); auto di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  for (unsigned n = 0, e = o.n(6000, 120000); n < e; ++n) {
    { begin("dom stream", ""); D::Document<S> d = di.createDocument("", "", D::DocumentType<S>()); D::Element<S> root = d.createElement("r"); d.appendChild(root); El want = dom(r, d, root, r(4)); std::ostringstream os; if (r(2)) os << d; else os << root; check("stream", want, os.str()); }
    { begin("sax writer", ""); std::ostringstream os; Arabica::SAX::Writer<S> w(os, r(2) ? S() : S("UTF-8"), 0); w.startDocument(); El want = sax(r, w, "r", r(4)); w.endDocument(); check("writer", want, os.str()); } }
  return finish(); }
