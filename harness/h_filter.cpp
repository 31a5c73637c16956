// Filters: a reader that replays a random event sequence, through a chain of filters, to handlers that record what they are told.
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <SAX/SAXParseException.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/XMLFilterImpl.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <memory>
using namespace vh;
namespace X = Arabica::SAX;
template<class S> struct T {
  typedef Arabica::default_string_adaptor<S> A;
  typedef X::XMLReaderInterface<S, A> Reader; typedef X::Attributes<S, A> Atts; typedef X::SAXParseException<S, A> Ex; typedef X::InputSource<S, A> Src; typedef X::Locator<S, A> Loc;
  struct Ev { int k; std::vector<S> s; const void* o; };
  enum { NOT, UNP, LOC, SD, ED, SPM, EPM, SE, EE, CH, IW, PI, SK, WA, ER, FE, ELD, ATD, IED, EED, SDTD, EDTD, SENT, EENT, SCD, ECD, COM, N };
  static int nargs(int k) { static const int n[] = {3, 4, 0, 0, 0, 2, 1, 3, 3, 1, 1, 2, 1, 0, 0, 0, 2, 5, 2, 3, 3, 0, 1, 1, 0, 0, 1}; return n[k]; }
  struct L : Loc { S getPublicId() const { return S(); } S getSystemId() const { return S(); } size_t getLineNumber() const { return 0; } size_t getColumnNumber() const { return 0; } };
  struct Rec : X::DTDHandler<S, A>, X::ContentHandler<S, A>, X::ErrorHandler<S, A>, X::DeclHandler<S, A>, X::LexicalHandler<S, A> {
    std::vector<std::pair<const Rec*, Ev> >* out; int boom = -1;
    void put(int k, std::vector<S> s, const void* o = 0) { out->push_back({this, Ev{k, s, o}}); if (k == boom) throw 7; }
    void notationDecl(const S& a, const S& b, const S& c) { put(NOT, {a, b, c}); }
    void unparsedEntityDecl(const S& a, const S& b, const S& c, const S& d) { put(UNP, {a, b, c, d}); }
    void setDocumentLocator(const Loc& l) { put(LOC, {}, &l); }
    void startDocument() { put(SD, {}); } void endDocument() { put(ED, {}); }
    void startPrefixMapping(const S& a, const S& b) { put(SPM, {a, b}); } void endPrefixMapping(const S& a) { put(EPM, {a}); }
    void startElement(const S& a, const S& b, const S& c, const Atts& x) { put(SE, {a, b, c}, &x); }
    void endElement(const S& a, const S& b, const S& c) { put(EE, {a, b, c}); }
    void characters(const S& a) { put(CH, {a}); } void ignorableWhitespace(const S& a) { put(IW, {a}); }
    void processingInstruction(const S& a, const S& b) { put(PI, {a, b}); } void skippedEntity(const S& a) { put(SK, {a}); }
    void warning(const Ex& e) { put(WA, {}, &e); } void error(const Ex& e) { put(ER, {}, &e); } void fatalError(const Ex& e) { put(FE, {}, &e); }
    void elementDecl(const S& a, const S& b) { put(ELD, {a, b}); } void attributeDecl(const S& a, const S& b, const S& c, const S& d, const S& e) { put(ATD, {a, b, c, d, e}); }
    void internalEntityDecl(const S& a, const S& b) { put(IED, {a, b}); } void externalEntityDecl(const S& a, const S& b, const S& c) { put(EED, {a, b, c}); }
    void startDTD(const S& a, const S& b, const S& c) { put(SDTD, {a, b, c}); } void endDTD() { put(EDTD, {}); }
    void startEntity(const S& a) { put(SENT, {a}); } void endEntity(const S& a) { put(EENT, {a}); }
    void startCDATA() { put(SCD, {}); } void endCDATA() { put(ECD, {}); } void comment(const S& a) { put(COM, {a}); }
  };
  struct Replay : Reader {
    X::EntityResolver<S, A>* er = 0; X::DTDHandler<S, A>* dh = 0; X::ContentHandler<S, A>* c = 0; X::ErrorHandler<S, A>* eh = 0; X::DeclHandler<S, A>* de = 0; X::LexicalHandler<S, A>* le = 0;
    std::vector<Ev> evs; Src* got = 0; std::map<S, bool> feat;
    bool getFeature(const S& n) const { auto i = feat.find(n); return i != feat.end() && i->second; } void setFeature(const S& n, bool v) { feat[n] = v; }
    void setEntityResolver(X::EntityResolver<S, A>& r) { er = &r; } X::EntityResolver<S, A>* getEntityResolver() const { return er; }
    void setDTDHandler(X::DTDHandler<S, A>& r) { dh = &r; } X::DTDHandler<S, A>* getDTDHandler() const { return dh; }
    void setContentHandler(X::ContentHandler<S, A>& r) { c = &r; } X::ContentHandler<S, A>* getContentHandler() const { return c; }
    void setErrorHandler(X::ErrorHandler<S, A>& r) { eh = &r; } X::ErrorHandler<S, A>* getErrorHandler() const { return eh; }
    void setDeclHandler(X::DeclHandler<S, A>& r) { de = &r; } X::DeclHandler<S, A>* getDeclHandler() const { return de; }
    void setLexicalHandler(X::LexicalHandler<S, A>& r) { le = &r; } X::LexicalHandler<S, A>* getLexicalHandler() const { return le; }
    void parse(Src& in) { got = &in; for (auto& e : evs) { auto& s = e.s; switch (e.k) {
      case NOT: dh->notationDecl(s[0], s[1], s[2]); break; case UNP: dh->unparsedEntityDecl(s[0], s[1], s[2], s[3]); break;
      case LOC: c->setDocumentLocator(*(const Loc*)e.o); break; case SD: c->startDocument(); break; case ED: c->endDocument(); break;
      case SPM: c->startPrefixMapping(s[0], s[1]); break; case EPM: c->endPrefixMapping(s[0]); break; case SE: c->startElement(s[0], s[1], s[2], *(const Atts*)e.o); break; case EE: c->endElement(s[0], s[1], s[2]); break;
      case CH: c->characters(s[0]); break; case IW: c->ignorableWhitespace(s[0]); break; case PI: c->processingInstruction(s[0], s[1]); break; case SK: c->skippedEntity(s[0]); break;
      case WA: eh->warning(*(const Ex*)e.o); break; case ER: eh->error(*(const Ex*)e.o); break; case FE: eh->fatalError(*(const Ex*)e.o); break;
      case ELD: de->elementDecl(s[0], s[1]); break; case ATD: de->attributeDecl(s[0], s[1], s[2], s[3], s[4]); break; case IED: de->internalEntityDecl(s[0], s[1]); break; case EED: de->externalEntityDecl(s[0], s[1], s[2]); break;
      case SDTD: le->startDTD(s[0], s[1], s[2]); break; case EDTD: le->endDTD(); break; case SENT: le->startEntity(s[0]); break; case EENT: le->endEntity(s[0]); break;
      case SCD: le->startCDATA(); break; case ECD: le->endCDATA(); break; case COM: le->comment(s[0]); break; } } }
  };
  static S text(Rng& r) { S s; for (unsigned n = r(4) ? r(4) : r(30); n--;) s += typename S::value_type(r(5) ? 'a' + r(4) : r(256)); return s; }
  // what a coalescer makes of a sequence; events that are no part of the content neither end a run nor are held
  static std::vector<Ev> coalesce(const std::vector<Ev>& in) {
    std::vector<Ev> o; S b; for (auto& e : in) {
      if (e.k == CH || e.k == IW) { b += e.s[0]; continue; }
      if (e.k == SD) b = S();
      bool content = e.k == ED || e.k == SPM || e.k == EPM || e.k == SE || e.k == EE || e.k == PI || e.k == SK || e.k == SENT || e.k == EENT || e.k == SCD || e.k == ECD || e.k == COM;
      if (content && !b.empty()) { o.push_back(Ev{CH, {b}, 0}); b = S(); }
      o.push_back(e); }
    return o; }
  static std::string show(const Ev& e) { std::string o = str(e.k) + "("; for (auto& s : e.s) o += esc(s) + ","; return o + ")"; }
  static void run(Rng& r, unsigned rounds, const char* what) {
    static Atts* at[2] = {new X::AttributesImpl<S, A>, new X::AttributesImpl<S, A>}; static L locs[2]; static Ex ex[2] = {Ex("x"), Ex("y")};
    for (unsigned n = 0; n < rounds; ++n) {
      Replay src; std::vector<std::pair<const Rec*, Ev> > out; Rec rec[3]; for (auto& x : rec) x.out = &out;
      std::vector<std::unique_ptr<X::XMLFilterImpl<S, A> > > chain; Reader* top = &src; bool co = false; std::string how;
      for (unsigned k = 1 + r(3); k--;) { bool c = r(2) != 0; co |= c; how += c ? "coalescer " : "filter "; X::XMLFilterImpl<S, A>* f;
        if (r(2)) { if (c) f = new X::TextCoalescer<S, A>(*top); else f = new X::XMLFilterImpl<S, A>(*top); } else { if (c) f = new X::TextCoalescer<S, A>; else f = new X::XMLFilterImpl<S, A>; f->setParent(*top); }
        if (f->getParent() != top) fail("parent", how); chain.emplace_back(f); top = f; }
      Rec *c = &rec[r(3)], *d = &rec[r(3)], *e = &rec[r(3)], *x = &rec[r(3)], *l = &rec[r(3)]; bool hd = r(4), he = r(4), hx = r(4), hl = r(4);
      top->setContentHandler(*c); if (hd) top->setDTDHandler(*d); if (he) top->setErrorHandler(*e); if (hx) top->setDeclHandler(*x); if (hl) top->setLexicalHandler(*l);
      bool texty = r(3) == 0, mixed = r(3) == 0; begin(what, how);
      for (unsigned pass = 1 + r(2); pass--;) {
        src.evs.clear(); out.clear(); src.evs.push_back(Ev{SD, {}, 0});
        for (unsigned k = r(texty ? 60 : 25); k--;) { int q = texty ? (r(3) ? CH : IW + r(2) * (SK - IW)) : r(3) ? r(N) : CH; if (q == SD || (q == ED && !mixed)) continue; Ev v{q, {}, 0}; for (int i = nargs(q); i--;) v.s.push_back(text(r));
          if (q == SE) v.o = at[r(2)]; if (q == LOC) v.o = (Loc*)&locs[r(2)]; if (q == WA || q == ER) v.o = &ex[r(2)]; if (q == FE) v.o = &ex[0]; if (q == FE && !he) continue; src.evs.push_back(v); }
        src.evs.push_back(Ev{ED, {}, 0});
        bool boom = pass && r(2); c->boom = boom ? SE : -1; for (auto& v : src.evs) step(" " + show(v));
        Src in; try { top->parse(in); } catch (int) {} if (src.got != &in) fail("source", how);
        // (a second coalescer in the chain finds runs that are single events already)
        std::vector<Ev> want = co ? coalesce(src.evs) : src.evs; std::vector<std::pair<const Rec*, Ev> > w;
        for (auto& v : want) { const Rec* to = c; if (v.k <= UNP) { if (!hd) continue; to = d; } else if (v.k >= WA && v.k <= FE) { if (!he) continue; to = e; } else if (v.k >= ELD && v.k <= EED) { if (!hx) continue; to = x; } else if (v.k >= SDTD) { if (!hl) continue; to = l; }
          w.push_back({to, v}); if (to->boom == v.k) break; }
        bool same = w.size() == out.size(); for (size_t i = 0; same && i < w.size(); ++i) same = w[i].first == out[i].first && w[i].second.k == out[i].second.k && w[i].second.s == out[i].second.s && w[i].second.o == out[i].second.o;
        if (!same) { size_t i = 0; while (i < w.size() && i < out.size() && w[i].second.k == out[i].second.k && w[i].second.s == out[i].second.s && w[i].first == out[i].first && w[i].second.o == out[i].second.o) ++i;
          fail("events", how + "event " + str(i) + ": " + (i < out.size() ? show(out[i].second) : "nothing") + " for " + (i < w.size() ? show(w[i].second) : "nothing")); }
        for (auto& q : rec) q.boom = -1; }
      S f = text(r); src.feat.clear(); top->setFeature(f, true); if (src.feat.size() != 1 || !src.feat[f] || !top->getFeature(f)) fail("feature", how); } }
};
int main(int c, char** v) { Opt o = start(c, v); Rng r(o.seed); T<std::string>::run(r, o.n(20000, 300000), "byte events"); T<std::wstring>::run(r, o.n(10000, 150000), "wide events"); return finish(); }
