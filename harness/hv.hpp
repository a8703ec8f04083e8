// Common parts of the harness programs: reports, current case, arguments.
#ifndef VERIF_HV_HPP
#define VERIF_HV_HPP
#include "oracle.hpp"
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <exception>
#include <functional>
#include <mutex>
#include <set>
#include <string>
#include <map>
#include <vector>

namespace hv {
inline std::mutex& mtx() { static std::mutex m; return m; }
inline char* at_buf() { static char b[4096]; return b; }

// remember the current case, it is printed if the program dies
inline void at(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void at(const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(at_buf(), 4096, fmt, ap);
  va_end(ap);
}
inline void print_at()
{
  const char* p = "\nAT ";
  if (write(1, p, 4) < 0) {}
  if (write(1, at_buf(), strlen(at_buf())) < 0) {}
  if (write(1, "\n", 1) < 0) {}
}
struct Report
{
  std::map<std::string, uint64_t> counters;
  uint64_t evals = 0, distinct = 0;
  int violations = 0, samples = 0;
  std::set<std::string> keys;
};
inline Report& rep() { static Report r; return r; }
inline void count(const std::string& n, uint64_t k = 1) { std::lock_guard<std::mutex> l(mtx()); rep().counters[n] += k; }
inline void eval(uint64_t n = 1, uint64_t distinct = 1) { std::lock_guard<std::mutex> l(mtx()); rep().evals += n; rep().distinct += distinct; }
inline void sample(const std::string& s)
{
  std::lock_guard<std::mutex> l(mtx());
  if (rep().samples++ < 4) { printf("S %s\n", s.c_str()); fflush(stdout); }
}
inline void violation(const std::string& key, const std::string& text)
{
  std::lock_guard<std::mutex> l(mtx());
  if (!rep().keys.insert(key).second) return;
  if (rep().violations++ < 10) { printf("V %s %s\n", key.c_str(), text.c_str()); fflush(stdout); }
}
inline int finish()
{
  for (auto& c : rep().counters) printf("C %s %llu\n", c.first.c_str(), (unsigned long long) c.second);
  printf("E %llu %llu\n", (unsigned long long) rep().evals, (unsigned long long) rep().distinct);
  printf("DONE\n");
  fflush(stdout);
  return 0;
}
inline void on_signal(int s) { print_at(); signal(s, SIG_DFL); raise(s); }
inline void install()
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, on_signal);
#endif
  signal(SIGTERM, on_signal);
}
// key=value arguments
struct Args
{
  std::map<std::string, std::string> a;
  Args(int argc, char** argv)
  {
    for (int i = 1; i < argc; i++)
    {
      std::string s = argv[i];
      size_t p = s.find('=');
      if (p == std::string::npos) a[s] = "1"; else a[s.substr(0, p)] = s.substr(p + 1);
    }
  }
  std::string get(const std::string& k, const std::string& d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
  double num(const std::string& k, double d) const { auto i = a.find(k); return i == a.end() ? d : atof(i->second.c_str()); }
  uint64_t u(const std::string& k, uint64_t d) const { auto i = a.find(k); return i == a.end() ? d : strtoull(i->second.c_str(), 0, 10); }
  std::vector<std::string> list(const std::string& k, const std::string& d) const
  {
    std::vector<std::string> r;
    std::string s = get(k, d), t;
    for (char c : s + ",") { if (c == ',') { if (!t.empty()) r.push_back(t); t.clear(); } else t += c; }
    return r;
  }
};
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
} // namespace hv

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((weak)) void __asan_on_error() { hv::print_at(); }
extern "C" __attribute__((weak)) void __ubsan_on_report() { hv::print_at(); }
#endif
#endif
