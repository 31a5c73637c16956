// Shared by the replay / bounded stand-in harnesses.  Each harness is compiled
// against /repo's current sources on every run.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <signal.h>
#include <unistd.h>
namespace vh {
inline std::string& current() { static std::string s; return s; }
inline const char*& where() { static const char* w = "start"; return w; }
inline unsigned long& cases() { static unsigned long n = 0; return n; }
inline std::map<std::string, int>& fails() { static std::map<std::string, int> f; return f; }
inline std::map<std::string, unsigned long>& tally() { static std::map<std::string, unsigned long> f; return f; }
inline std::string esc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\' && c != '|') o += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
  return o;
}
template<class S> std::string esc(const S& s) {
  std::string o; char b[16];
  for (auto c : s) { unsigned v = unsigned(c); if (v >= 32 && v < 127) o += char(v); else { snprintf(b, sizeof b, "\\u{%x}", v); o += b; } }
  return o;
}
// a concrete failing input: key identifies the behaviour that broke, text the input
inline void fail(const std::string& key, const std::string& text) {
  int& n = fails()[key];
  if (++n <= 3) { printf("FAIL|%s|%s\n", key.c_str(), esc(text).c_str()); fflush(stdout); }
  if (fails().size() > 40) { printf("DONE|%lu\n", cases()); fflush(stdout); _exit(3); }
}
inline void died(const char* how) {
  char b[4096]; int n = snprintf(b, sizeof b, "\nFAIL|%s:%s|%s\n", how, where(), esc(current()).substr(0, 3500).c_str());
  if (write(1, b, n)) {}
  _exit(3);
}
inline void onsig(int s) { died(s == SIGALRM ? "hang" : s == SIGSEGV ? "segv" : s == SIGFPE ? "fpe" : s == SIGABRT ? "abort" : "signal"); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void ondeath() { died("sanitizer"); }
inline void onterminate() { died("terminate"); }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull >> 11; }
  unsigned operator()(unsigned n) { return n ? unsigned(next() % n) : 0; }
  bool coin(unsigned n = 2) { return (*this)(n) == 0; }
  template<class C> auto pick(const C& c) -> decltype(c[0]) { return c[(*this)(unsigned(c.size()))]; }
};
struct Opt { bool thorough; uint64_t seed; unsigned n(unsigned quick, unsigned deep) const { return thorough ? deep : quick; } };
// begin a case: what is being run, for crash and hang reports
inline void begin(const char* w, const std::string& input) { where() = w; current() = input; ++cases(); ++tally()[w]; }
inline void step(const std::string& more) { current() += more; }
inline Opt start(int argc, char** argv) {
  Opt o; o.thorough = argc > 1 && !strcmp(argv[1], "thorough"); o.seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  static char stk[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, 0);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onsig; a.sa_flags = SA_ONSTACK; sigaction(s, &a, 0); }
  if (&__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
  std::set_terminate(onterminate);
  alarm(o.thorough ? 780 : 400);
  return o;
}
inline int finish() {
  alarm(0);
  for (auto& t : tally()) printf("COUNT|%s|%lu\n", t.first.c_str(), t.second);
  printf("DONE|%lu\n", cases()); fflush(stdout);
  return fails().empty() ? 0 : 1;
}
template<class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
}
#endif
