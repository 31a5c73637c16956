// URI parsing and resolution against RFC 3986 (Appendix B, 5.2.2 and 5.2.4 followed to the letter).
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <io/uri.hpp>
using namespace vh; typedef std::string S; typedef Arabica::io::URI URI;
struct U { bool hs = false, ha = false, hq = false, hf = false; S s, a, p, q, f; };
static U split(S x) { U u; size_t c = x.find_first_of(":/?#");
  if (c != S::npos && c && x[c] == ':' && isalpha((unsigned char)x[0]) && x.substr(0, c).find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.") == S::npos) { u.hs = true; u.s = x.substr(0, c); x = x.substr(c + 1); }
  size_t h = x.find('#'); if (h != S::npos) { u.hf = true; u.f = x.substr(h + 1); x = x.substr(0, h); } h = x.find('?'); if (h != S::npos) { u.hq = true; u.q = x.substr(h + 1); x = x.substr(0, h); }
  if (!x.compare(0, 2, "//")) { u.ha = true; h = x.find('/', 2); u.a = x.substr(2, h == S::npos ? h : h - 2); x = h == S::npos ? "" : x.substr(h); }
  u.p = x; return u; }
static S dots(S in) { S out; // 5.2.4
  while (!in.empty()) {
    if (!in.compare(0, 3, "../")) in.erase(0, 3); else if (!in.compare(0, 2, "./")) in.erase(0, 2);
    else if (!in.compare(0, 3, "/./")) in.erase(0, 2); else if (in == "/.") in = "/";
    else if (!in.compare(0, 4, "/../") || in == "/..") { in = in == "/.." ? "/" : in.substr(3); size_t k = out.rfind('/'); out.erase(k == S::npos ? 0 : k); }
    else if (in == "." || in == "..") in.clear();
    else { size_t k = in.find('/', 1); out += in.substr(0, k); in = k == S::npos ? "" : in.substr(k); } }
  return out; }
static S rel(const S& in) { // a relative path: what climbs above its start is kept
  std::vector<S> v; S seg; std::vector<S> segs; for (size_t i = 0, k; i <= in.size(); i = k + 1) { k = in.find('/', i); if (k == S::npos) k = in.size(); segs.push_back(in.substr(i, k - i)); }
  S tail; for (size_t i = 0; i < segs.size(); ++i) { bool last = i + 1 == segs.size(); const S& s = segs[i]; if (s == ".") continue; if (s == "..") { if (!v.empty() && v.back() != "..") { v.pop_back(); continue; } if (last) tail = s; else v.push_back(s); continue; } if (last) tail = s; else v.push_back(s); }
  S o; for (auto& s : v) o += s + "/"; return o + tail; }
static S norm(const S& p) { return p[0] == '/' ? dots(p) : rel(p); }
static S put(const U& u) { S a = u.a; bool ha = u.ha && !a.empty(); if (ha && a[a.size() - 1] == ':') a.erase(a.size() - 1);
  if (u.s == "file" && !ha && u.p[0] == '/') ha = true;
  return (u.hs ? u.s + ":" : "") + (ha ? "//" + a : "") + u.p + (u.hq ? "?" + u.q : "") + (u.hf ? "#" + u.f : ""); }
static bool plain(const U& u) { if (u.hs && u.s.size() == 1) return false; if (u.ha && (u.a.empty() ? u.s != "file" : true) && (u.a.empty() || u.a[0] == ':')) return false; if (!u.ha && !u.p.compare(0, 2, "//")) return false; if (u.ha && u.a.empty() && u.p.empty()) return false;
  if (u.s == "file" && u.p.size() > 1 && u.p[1] == ':') return false; S all = put(u); if (!u.hs && all.find('\\') != S::npos) return false; return true; }
static S host(const U& u, S* port) { S a = u.a; size_t k = a.size(); while (k && isdigit((unsigned char)a[k - 1])) --k; if (k && a[k - 1] == ':') { *port = a.substr(k); return a.substr(0, k - 1); } *port = ""; return a; }
static S resolve(const U& b, const U& r, bool& sure) { U t; sure = true;
  bool same = r.hs && r.s == b.s && !r.ha && !(r.s == "file" && r.p[0] == '/'); if (r.s == "file" && r.hs && !b.hs) { sure = false; }
  if (r.hs && !same) { t = r; t.p = norm(r.p); }
  else { t.hs = b.hs; t.s = b.s; t.hf = r.hf; t.f = r.f; t.hq = r.hq; t.q = r.q;
    if (r.ha) { t.ha = true; t.a = r.a; t.p = norm(r.p); }
    else { t.ha = b.ha; t.a = b.a;
      if (r.p.empty()) { t.p = norm(b.p); if (!r.hq) { t.hq = b.hq; t.q = b.q; } }
      else if (r.p[0] == '/') t.p = norm(r.p);
      else { S m; size_t k = b.p.rfind('/'); if (b.ha && !b.a.empty() && b.p.empty()) m = "/" + r.p; else m = (k == S::npos ? "" : b.p.substr(0, k + 1)) + r.p; t.p = norm(m); } } }
  if (!t.ha && !t.p.compare(0, 2, "//")) sure = false; if (t.ha && t.a.empty() && t.s != "file") sure = false; if (t.s == "file" && t.p.size() > 1 && t.p[1] == ':') sure = false;
  return put(t); }
static S gen(Rng& r, bool base) { static const std::vector<S> seg = {"a", "b", "..", ".", "", "c.d", "...", "x:y", "..a", "%2e", "\xc3\xa9"}; S o;
  if (base ? r(5) != 0 : r(4) == 0) { o = std::vector<S>{"http:", "https:", "file:", "urn-x+y.1:"}[r(4)]; }
  if (!o.compare(0, 4, "http") || r(base ? 3 : 6) == 0) { if (r(6)) o += "//" + std::vector<S>{"h", "localhost:8080", "[::1]:80", "u:p@h", "a.b.c:", "[::1]"}[r(6)]; }
  else if (o == "file:" && r(2)) o += "//";
  if (r(base ? 8 : 3)) o += "/"; else if (base && r(2)) return o;
  for (unsigned k = r(r(20) ? 6 : 60); k--;) o += r.pick(seg) + (k || r(2) ? "/" : ""); if (r(3)) o += std::vector<S>{"f", "..", ".", "g.x"}[r(4)];
  if (r(5) == 0) o += "?" + S(r(2) ? "q/../r" : ""); if (r(6) == 0) o += "#" + S(r(2) ? "f/./?" : ""); return o; }
static S soup(Rng& r) { S o; for (unsigned k = r(12); k--;) o += "a:/.?#\\01:/.f"[r(13)]; return o; }
static void one(const S& bs, const S& rs, const char* what) {
  begin(what, bs + " + " + rs); U b = split(bs), q = split(rs);
  URI u(bs); S pt, h = host(b, &pt);
  if (plain(b)) {
    if (u.scheme() != b.s || u.host() != h) fail("split", bs + " => scheme " + u.scheme() + " host " + u.host());
    S want = pt; if (want.empty()) want = b.s == "http" ? "80" : b.s == "https" ? "443" : "0"; if (u.port() != want) fail("port", bs + " => " + u.port());
    S path = b.p + (b.hq ? "?" + b.q : "") + (b.hf ? "#" + b.f : ""); if (u.path() != path) fail("path", bs + " => " + u.path());
    if (u.as_string() != put(b)) fail("reassemble", bs + " => " + u.as_string()); }
  URI t(u, rs), e(t); if (e != t || !(e == t)) fail("copy", bs); e = u; if (e != u || e.as_string() != u.as_string()) fail("assign", bs); e.swap(t); if (t != u) fail("swap", bs); e.swap(t);
  if (plain(b) && plain(q)) { bool sure; S w = resolve(b, q, sure); if (sure && t.as_string() != w) fail("resolve", bs + " + " + rs + " => " + t.as_string() + " not " + w); } }
// a file path without scheme: as long as no scheme or authority can be read into it, every backslash is a separator
static void file(Rng& r) { S p; bool drive = r(3) == 0; for (unsigned k = 1 + r(9); k--;) p += "\\\\\\/a.b"[r(7)]; if (drive) p = "C:" + p; begin("file path", p); S w = p; for (auto& ch : w) if (ch == '\\') ch = '/';
  if (!drive && !w.compare(0, 2, "//")) return; URI u(p); URI x(w); if (u.path().find('\\') != S::npos || u.path() != x.path() || u.as_string() != x.as_string() || u != x) fail("backslash", p + " => " + u.as_string() + " path " + u.path() + " not " + x.as_string()); }
// two URIs are equal exactly when all their parts are
static void equal(Rng& r) { S s[2]; for (auto& x : s) { x = S(r(4) ? "http" : "https") + "://" + (r(6) ? "h" : "g"); if (r(3)) x += S(":") + (r(3) ? "80" : r(2) ? "443" : "81"); x += r(5) ? "/a" : "/b"; } begin("equality", s[0] + " " + s[1]); URI a(s[0]), b(s[1]);
  bool same = a.as_string() == b.as_string() && a.port() == b.port(); if ((a == b) != same || (a != b) == same) fail("equality", current()); }
int main(int c, char** v) { Opt o = start(c, v); Rng r(o.seed);
  static const char* rfc[][2] = {{"g:h", "g:h"}, {"g", "http://a/b/c/g"}, {"./g", "http://a/b/c/g"}, {"g/", "http://a/b/c/g/"}, {"/g", "http://a/g"}, {"//g", "http://g"}, {"?y", "http://a/b/c/d;p?y"}, {"g?y", "http://a/b/c/g?y"}, {"#s", "http://a/b/c/d;p?q#s"}, {"g#s", "http://a/b/c/g#s"}, {"g?y#s", "http://a/b/c/g?y#s"}, {";x", "http://a/b/c/;x"}, {"g;x", "http://a/b/c/g;x"}, {"", "http://a/b/c/d;p?q"}, {".", "http://a/b/c/"}, {"./", "http://a/b/c/"}, {"..", "http://a/b/"}, {"../", "http://a/b/"}, {"../g", "http://a/b/g"}, {"../..", "http://a/"}, {"../../", "http://a/"}, {"../../g", "http://a/g"}, {"../../../g", "http://a/g"}, {"../../../../g", "http://a/g"}, {"/./g", "http://a/g"}, {"/../g", "http://a/g"}, {"g.", "http://a/b/c/g."}, {".g", "http://a/b/c/.g"}, {"g..", "http://a/b/c/g.."}, {"..g", "http://a/b/c/..g"}, {"./../g", "http://a/b/g"}, {"./g/.", "http://a/b/c/g/"}, {"g/./h", "http://a/b/c/g/h"}, {"g/../h", "http://a/b/c/h"}, {"g;x=1/./y", "http://a/b/c/g;x=1/y"}, {"g;x=1/../y", "http://a/b/c/y"}, {"g?y/./x", "http://a/b/c/g?y/./x"}, {"g?y/../x", "http://a/b/c/g?y/../x"}, {"g#s/./x", "http://a/b/c/g#s/./x"}, {"g#s/../x", "http://a/b/c/g#s/../x"}, {"http:g", "http://a/b/c/g"}};
  for (auto& x : rfc) { begin("RFC 3986 5.4", x[0]); if (S(x[0]) != "g:h" && URI(URI("http://a/b/c/d;p?q"), x[0]).as_string() != x[1]) fail("rfc", S(x[0]) + " => " + URI(URI("http://a/b/c/d;p?q"), x[0]).as_string()); }
  for (unsigned n = 0, e = o.n(20000, 200000); n < e; ++n) { file(r); equal(r); }
  for (unsigned n = 0, e = o.n(300000, 4000000); n < e; ++n) one(gen(r, true), gen(r, false), "references");
  for (unsigned n = 0, e = o.n(200000, 3000000); n < e; ++n) { S a = soup(r), b = soup(r); one(r(2) ? a : "http://h" + a, b, "character soup"); }
  for (S s : {"", "/", ":", "a", "http", "http:", "http:/", "http://", "file:", "file:/", "//", "//:", "/..", "..", "../", "a/..", "?", "#"}) for (S t : {"", "/", ":", "a", "x:", "file:", "http:", "//", "..", "../..", ".", "../x", "?", "#"}) one(s, t, "edges");
  return finish(); }
