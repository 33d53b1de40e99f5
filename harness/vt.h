// Trace recording support shared by every conformance harness.
//
// A harness runs "episodes". Each episode runs in a forked child which drives the real libswoc code through its
// public interface and appends one JSON event per completed public operation (its linearization point: the return
// of the call). The parent assembles one ndjson line per episode: {"id":N,"e":[event,...]}. If the child dies,
// runs out of CPU time, or lets an exception escape, a CRASH / THROW event is appended - no action of any
// specification accepts one, so the trace is rejected.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <string_view>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

namespace vt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long range(long lo, long hi) { return lo + static_cast<long>(next() % static_cast<uint64_t>(hi - lo + 1)); } // inclusive
  bool chance(int n, int d) { return range(1, d) <= n; }
  template <typename T> T const &pick(std::vector<T> const &v) { return v[next() % v.size()]; }
};

inline std::string jint(long long v) {
  if (v > 2147483647LL) v = 2147483647LL; // TLC integers are 32 bit.
  if (v < -2147483647LL) v = -2147483647LL;
  return std::to_string(v);
}
inline std::string jbytes(std::string_view t) {
  std::string r = "[";
  for (size_t i = 0; i < t.size(); ++i) {
    if (i) r += ',';
    r += std::to_string(static_cast<unsigned char>(t[i]));
  }
  return r + "]";
}
template <typename C> std::string jints(C const &c) {
  std::string r = "[";
  bool first = true;
  for (auto v : c) {
    if (!first) r += ',';
    first = false;
    r += jint(static_cast<long long>(v));
  }
  return r + "]";
}
inline std::string jlist(std::vector<std::string> const &c) {
  std::string r = "[";
  for (size_t i = 0; i < c.size(); ++i) {
    if (i) r += ',';
    r += c[i];
  }
  return r + "]";
}
inline std::string jstr(std::string_view s) { // plain identifiers only.
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}
/// 64 bit value as four 16 bit limbs, most significant first.
inline std::string ju64(uint64_t v) {
  return "[" + std::to_string((v >> 48) & 0xffff) + "," + std::to_string((v >> 32) & 0xffff) + "," + std::to_string((v >> 16) & 0xffff) +
         "," + std::to_string(v & 0xffff) + "]";
}

class Ev {
public:
  std::string _s;
  explicit Ev(std::string_view op) { _s = "{\"op\":" + jstr(op); }
  Ev &j(char const *k, std::string const &raw) { _s += ",\""; _s += k; _s += "\":"; _s += raw; return *this; }
  Ev &i(char const *k, long long v) { return j(k, jint(v)); }
  Ev &b(char const *k, bool v) { return j(k, v ? "true" : "false"); }
  Ev &s(char const *k, std::string_view v) { return j(k, jstr(v)); }
  Ev &t(char const *k, std::string_view v) { return j(k, jbytes(v)); }
  template <typename C> Ev &v(char const *k, C const &c) { return j(k, jints(c)); }
  Ev &u64(char const *k, uint64_t v) { return j(k, ju64(v)); }
  std::string str() const { return _s + "}"; }
};

/// Record builder for nested values.
class Rec {
  std::string _s = "{";
public:
  Rec &j(char const *k, std::string const &raw) { if (_s.size() > 1) _s += ','; _s += "\""; _s += k; _s += "\":"; _s += raw; return *this; }
  Rec &i(char const *k, long long v) { return j(k, jint(v)); }
  Rec &b(char const *k, bool v) { return j(k, v ? "true" : "false"); }
  Rec &s(char const *k, std::string_view v) { return j(k, jstr(v)); }
  Rec &t(char const *k, std::string_view v) { return j(k, jbytes(v)); }
  template <typename C> Rec &v(char const *k, C const &c) { return j(k, jints(c)); }
  std::string str() const { return _s + "}"; }
};

struct Shared {
  size_t cap;
  size_t len;
  char pending[512];
  char data[1];
};

struct Ep {
  Rng rng;
  long id       = 0;
  bool thorough = false;
  std::string only; ///< component dependent selector (--mode).
  std::vector<std::string> script; ///< lines of the specification generated script for this episode, if any.
  Shared *sh = nullptr;
  /// Describe the operation about to be performed (for crash reports).
  void pending(std::string_view what) {
    size_t n = what.size() < sizeof(sh->pending) - 1 ? what.size() : sizeof(sh->pending) - 1;
    memcpy(sh->pending, what.data(), n);
    sh->pending[n] = 0;
  }
  void emit(Ev const &ev) {
    std::string s = ev.str();
    if (sh->len + s.size() + 2 > sh->cap) {
      fprintf(stderr, "vt: event buffer full\n");
      _exit(99);
    }
    if (sh->len) sh->data[sh->len++] = ',';
    memcpy(sh->data + sh->len, s.data(), s.size());
    sh->len += s.size();
    sh->pending[0] = 0;
  }
};

using EpFn = std::function<void(Ep &)>;

/// Run the episodes of this shard. @a n_quick / @a n_thorough : number of episodes in each tier.
// A defect may grow something without end: a limit on what is mapped beyond what is now (the sanitizer maps a lot, the
// address space itself can not be limited). Its own limit on resident memory is not checked in a forked process.
inline void limit_memory() {
  if (FILE *f = fopen("/proc/self/status", "r")) {
    char line[256];
    long kb = 0;
    while (fgets(line, sizeof line, f)) if (sscanf(line, "VmData: %ld kB", &kb) == 1) break;
    fclose(f);
    rlimit rl{(static_cast<rlim_t>(kb) + 1500000) * 1024, (static_cast<rlim_t>(kb) + 1500000) * 1024};
    if (kb > 0) setrlimit(RLIMIT_DATA, &rl);
  }
}
inline int main(int argc, char **argv, EpFn fn, long n_quick, long n_thorough, unsigned cpu_limit = 12) {
  std::string out = "trace.ndjson", mode, script;
  long shard = 0, nshards = 1, only = -1, episodes = -1;
  uint64_t seed = 1;
  bool thorough = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx       = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = nx();
    else if (a == "--shard") shard = atol(nx().c_str());
    else if (a == "--nshards") nshards = atol(nx().c_str());
    else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--tier") thorough = nx() == "thorough";
    else if (a == "--only") only = atol(nx().c_str());
    else if (a == "--episodes") episodes = atol(nx().c_str());
    else if (a == "--mode") mode = nx();
    else if (a == "--script") script = nx();
  }
  // Scripts: groups of lines separated by a line "--".
  std::vector<std::vector<std::string>> scripts;
  if (!script.empty()) {
    FILE *f = fopen(script.c_str(), "r");
    if (!f) { perror("script"); return 3; }
    char *line = nullptr; size_t n = 0; ssize_t k;
    std::vector<std::string> cur;
    while ((k = getline(&line, &n, f)) >= 0) {
      std::string s(line, k);
      while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
      if (s == "--") { scripts.push_back(cur); cur.clear(); } else cur.push_back(s);
    }
    if (!cur.empty()) scripts.push_back(cur);
    free(line);
    fclose(f);
  }
  if (episodes < 0) episodes = thorough ? n_thorough : n_quick;
  long total = episodes + static_cast<long>(scripts.size());
  FILE *fo = fopen(out.c_str(), "w");
  if (!fo) { perror("out"); return 3; }
  size_t cap = 32u << 20;
  auto *sh = static_cast<Shared *>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (sh == MAP_FAILED) { perror("mmap"); return 3; }
  std::string errfile = out + ".stderr";
  int crashes = 0;
  for (long id = 0; id < total; ++id) {
    if (only >= 0 ? id != only : (id % nshards) != shard) continue;
    sh->cap = cap - sizeof(Shared) - 4096;
    sh->len = 0;
    sh->pending[0] = 0;
    fflush(fo);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (pid == 0) {
      int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if (fd >= 0) { dup2(fd, 2); close(fd); }
      rlimit rl{cpu_limit, cpu_limit + 1};
      setrlimit(RLIMIT_CPU, &rl);
      rlimit nc{0, 0};
      setrlimit(RLIMIT_CORE, &nc);
      limit_memory();
      Ep ep;
      ep.id       = id;
      ep.thorough = thorough;
      ep.only     = mode;
      ep.sh       = sh;
      ep.rng      = Rng(seed * 0x1000003ull + static_cast<uint64_t>(id) * 7919 + 17);
      for (int k = 0; k < 4; ++k) ep.rng.next();
      if (id >= episodes) ep.script = scripts[id - episodes];
      try {
        fn(ep);
      } catch (std::exception const &x) {
        Ev ev("THROW");
        ev.s("during", sh->pending).s("what", x.what());
        ep.emit(ev);
      } catch (...) {
        Ev ev("THROW");
        ev.s("during", sh->pending).s("what", "unknown");
        ep.emit(ev);
      }
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    std::string line = "{\"id\":" + std::to_string(id) + ",\"e\":[" + std::string(sh->data, sh->len);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      std::string err;
      if (FILE *fe = fopen(errfile.c_str(), "r")) {
        char buf[4096];
        size_t n = fread(buf, 1, sizeof buf, fe);
        err.assign(buf, n);
        fclose(fe);
      }
      std::string head;
      if (auto p = err.find("ERROR:"); p != std::string::npos) head = err.substr(p, err.find('\n', p) - p);
      else head = err.substr(0, 160);
      Ev ev("CRASH");
      ev.s("during", sh->pending).i("status", WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st)).s("what", head);
      if (sh->len) line += ',';
      line += ev.str();
      ++crashes;
    }
    line += "]}\n";
    fwrite(line.data(), 1, line.size(), fo);
    if (crashes >= 3) break; // no action accepts a crash: nothing to be gained by more of them (each may be a time out).
  }
  fclose(fo);
  unlink(errfile.c_str());
  return 0;
}
} // namespace vt

