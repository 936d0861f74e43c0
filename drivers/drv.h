// Common machinery of the conformance drivers: reads scripts, runs each script in a child process
// (so that exit/abort/sanitizer reports inside the library become recorded outcomes), and writes one
// JSON event per public call, at its return.
#ifndef VERIF_DRV_H
#define VERIF_DRV_H
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace drv {

struct Args {
  std::vector<std::string> t;
  size_t i = 0;
  const std::string &s() { if (i >= t.size()) { fprintf(stderr, "driver: missing argument of %s\n", t[0].c_str()); _exit(98);} return t[i++]; }
  long n() { return strtol(s().c_str(), nullptr, 10); }
  double d() { return strtod(s().c_str(), nullptr); }
  std::vector<double> dv() { long k = n(); std::vector<double> v; for (long j = 0; j < k; j++) v.push_back(d()); return v; }
  template<class T> T get();
  template<class T> std::vector<T> vec() { long k = n(); std::vector<T> v; for (long j = 0; j < k; j++) v.push_back(get<T>()); return v; }
};
template<> inline double Args::get<double>() { return d(); }
template<> inline float Args::get<float>() { return (float) d(); }
template<> inline int Args::get<int>() { return (int) n(); }
template<> inline std::complex<double> Args::get<std::complex<double>>() { double a = d(), b = d(); return {a, b}; }
template<> inline std::complex<float> Args::get<std::complex<float>>() { double a = d(), b = d(); return {(float)a, (float)b}; }

inline std::string js(double x) {
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64]; snprintf(b, sizeof b, "\"%a\"", x); return b;
}
inline std::string js(float x) { return js((double) x); }
inline std::string js(int x) { return std::to_string(x); }
inline std::string js(long x) { return std::to_string(x); }
inline std::string js(unsigned x) { return std::to_string(x); }
inline std::string js(unsigned long x) { // sizes: keep inside 32-bit for TLC
  return x > 2000000000UL ? std::string("-1") : std::to_string(x); }
inline std::string js(bool x) { return x ? "true" : "false"; }
inline std::string js(const char *s) { return std::string("\"") + s + "\""; }
inline std::string js(const std::string &s) {
  std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
// complex numbers are recorded as the pair <<re, im>>
template<class T> std::string js(const std::complex<T> &z) { return "[" + js(z.real()) + "," + js(z.imag()) + "]"; }
template<class T> std::string js(const std::vector<T> &v) {
  std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += js(v[i]); } return o + "]"; }
inline std::string js(const std::vector<bool> &v) {
  std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += js((bool)v[i]); } return o + "]"; }

extern int g_fd;
extern char *g_pending;
const size_t PENDING = 1 << 20;

struct Ev {
  std::string b;
  explicit Ev(const std::string &op) { b = "{\"op\":" + js(op); }
  template<class T> Ev &f(const char *k, const T &v) { b += std::string(",\"") + k + "\":" + js(v); return *this; }
  Ev &raw(const char *k, const std::string &v) { b += std::string(",\"") + k + "\":" + v; return *this; }
  void emit(const char *out) {
    b += std::string(",\"out\":\"") + out + "\"}\n";
    g_pending[0] = 0;
    size_t o = 0; while (o < b.size()) { ssize_t w = write(g_fd, b.data() + o, b.size() - o); if (w <= 0) _exit(97); o += w; }
  }
  // run the call; what it does to *this (recording results) only counts when it returns normally
  template<class F> bool run(F fn) {
    if (b.size() + 1 < PENDING) { memcpy(g_pending, b.c_str(), b.size() + 1); } else { strcpy(g_pending, "{\"op\":\"toolong\""); }
    std::string keep = b;
    try { fn(); } catch (const std::exception &) { b = keep; emit("throw"); return false; } catch (...) { b = keep; emit("throw"); return false; }
    emit("ok"); return true;
  }
};

// one script step; returns when the step is done
using Step = std::function<void(Args &)>;

// 'fresh' is called at the start of every script to obtain the step function with fresh objects
inline int main_loop(int argc, char **argv, std::function<Step()> fresh) {
  if (argc < 3) { fprintf(stderr, "usage: %s SCRIPTS TRACE\n", argv[0]); return 2; }
  std::ifstream in(argv[1]);
  std::vector<std::vector<Args>> scripts; std::string line;
  std::vector<long> ids; long cur = 0;
  while (std::getline(in, line)) {
    std::istringstream ss(line); Args a; std::string w; while (ss >> w) a.t.push_back(w);
    if (a.t.empty()) continue;
    a.i = 1;
    if (a.t[0] == "reset") { scripts.emplace_back(); ids.push_back(a.t.size() > 1 ? atol(a.t[1].c_str()) : cur); cur++; continue; }
    if (scripts.empty()) { scripts.emplace_back(); ids.push_back(cur++); }
    scripts.back().push_back(a);
  }
  g_fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (g_fd < 0) { perror("trace"); return 2; }
  g_pending = (char *) mmap(nullptr, PENDING, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile long *cur_k = (volatile long *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // A child runs scripts one after the other, with fresh objects for each; when it dies inside a script the
  // way it died becomes the outcome of the pending call and a new child goes on with the next script.
  for (size_t k = 0; k < scripts.size();) {
    g_pending[0] = 0; *cur_k = (long) k;
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      // a call that keeps allocating is stopped before it takes the machine's memory
      long pages[6] = {0}; if (FILE *sm = fopen("/proc/self/statm", "r")) {
        if (fscanf(sm, "%ld %ld %ld %ld %ld %ld", pages, pages + 1, pages + 2, pages + 3, pages + 4, pages + 5) == 6) {
          rl.rlim_cur = (rlim_t) pages[5] * (rlim_t) sysconf(_SC_PAGESIZE) + (3ULL << 30); rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_DATA, &rl); }
        fclose(sm); }
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      if (!getenv("DRV_STDERR")) dup2(dn, 2);
      for (size_t j = k; j < scripts.size(); j++) {
        *cur_k = (long) j;
        struct rusage ru; getrusage(RUSAGE_SELF, &ru);
        rl.rlim_cur = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 30; rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_CPU, &rl);
        std::string r = "{\"op\":\"reset\",\"id\":" + std::to_string(ids[j]) + "}\n";
        if (write(g_fd, r.data(), r.size()) != (ssize_t) r.size()) _exit(97);
        {
          Step st = fresh();
          for (auto &a : scripts[j]) st(a);
          // objects are destroyed here, so their destruction is checked too
          strcpy(g_pending, "{\"op\":\"end\"");
        }
        g_pending[0] = 0;
      }
      *cur_k = (long) scripts.size();
      _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) { fprintf(stderr, "driver: bad script %ld\n", ids[*cur_k]); return 3; }
    if (*cur_k == (long) scripts.size()) break;
    std::string o = g_pending[0] ? std::string(g_pending) : std::string("{\"op\":\"none\"");
    if (WIFEXITED(st)) o += ",\"out\":\"" + (WEXITSTATUS(st) == 99 ? std::string("sanitizer") : "exit" + std::to_string(WEXITSTATUS(st))) + "\"}\n";
    else o += ",\"out\":\"" + (WTERMSIG(st) == 6 ? std::string("abort") : "sig" + std::to_string(WTERMSIG(st))) + "\"}\n";
    if (write(g_fd, o.data(), o.size()) != (ssize_t) o.size()) return 2;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) break;  // a call that never ends: recorded, no need to see more of them
    k = *cur_k + 1;
  }
  close(g_fd);
  return 0;
}
}  // namespace drv
#define DRV_MAIN(fresh) \
  int drv::g_fd; char *drv::g_pending; \
  extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=190"; } \
  extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; } \
  int main(int c, char **v) { return drv::main_loop(c, v, fresh); }
#endif
