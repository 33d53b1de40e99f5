// Conformance driver for the file operations of swoc::file, on a scratch tree of an unprivileged user.
#include "vt.h"
#include "swoc/swoc_file.h"
#include <algorithm>
#include <dirent.h>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <vector>
using namespace vt;
namespace file = swoc::file;
using file::path;

static std::string BASE; // of this process
constexpr int NN = 5;
static std::string NAMES[NN + 1] = {"", "a", "bb", "file.txt", "D", "e with space"}; // names of this episode.
static void rename_all(Rng &r) {
  static const std::vector<std::string> POOL = {"a", "bb", "file.txt", "D", "e with space", "..x", "...", "..", ".h", ".", "~", "*", "-rf", "a.", "A", "x:y", "%41", "\\", "$(x)", " ", std::string(255, 'n'), std::string(200, '.'), "lost+found", "{}", "#"};
  if (r.chance(1, 3)) return;
  for (int i = 1; i <= NN; ++i) { bool again; do { NAMES[i] = r.pick(POOL); again = NAMES[i] == "." || NAMES[i] == ".."; for (int k = 1; k < i; ++k) again |= NAMES[k] == NAMES[i]; } while (again); }
}
constexpr long MAX = 4000000;
struct Path { bool abs = false; std::vector<int> c; };
static std::string jpath(Path const &p) { return Rec().b("abs", p.abs).v("c", p.c).str(); }

struct Drive {
  Ep &ep; Rng &r;
  std::string root;
  std::vector<std::string> contents;
  std::unique_ptr<file::unique_fd> ufd[4];
  std::set<int> fds;
  int mask = 022;
  Drive(Ep &e) : ep(e), r(e.rng) {
    if (0 == geteuid()) { uid_t u = 60000; if (setgroups0() || setresgid(u, u, u) || setresuid(u, u, u) || 0 == geteuid()) { _exit(98); } }
    root = BASE + "/eXXXXXX";
    if (!mkdtemp(root.data()) || chdir(root.c_str()) || chmod(root.c_str(), 0755)) { _exit(97); }
    signal(SIGXFSZ, SIG_IGN);
    rlimit l{MAX, MAX}; setrlimit(RLIMIT_FSIZE, &l); // whatever the code does, the disk is not filled.
    Ev ev("start"); ev.i("n", 4); put(ev); ep.emit(ev);
  }
  static int setgroups0();
  // Content as an index.
  int content(std::string const &s) {
    for (size_t i = 0; i < contents.size(); ++i) if (contents[i] == s) return i + 1;
    contents.push_back(s); return contents.size();
  }
  std::string fresh() {
    static size_t const SIZES[] = {0, 1, 100, 4096, 65535, 65536, 65537, 131072, 200000};
    size_t n = SIZES[r.range(0, 8)];
    std::string s; s.reserve(n); uint64_t x = r.next();
    while (s.size() < n) { s += char(x >> 56); x = x * 6364136223846793005ull + 1442695040888963407ull; }
    return s;
  }
  static std::string slurp(std::string const &f) {
    std::string s; int fd = open(f.c_str(), O_RDONLY | O_NOFOLLOW); if (fd < 0) return "?";
    char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd); return s;
  }
  static int name(std::string_view s) { for (int i = 1; i <= NN; ++i) if (s == NAMES[i]) return i; return s == "." ? -1 : s == ".." ? -2 : s.empty() ? 0 : 99; }
  Path parse(std::string_view s) { // of the driver's own texts
    Path p;
    if (s.substr(0, root.size()) == root && (s.size() == root.size() || s[root.size()] == '/')) { p.abs = true; s.remove_prefix(root.size()); if (s.empty()) return p; s.remove_prefix(1); }
    for (;;) { auto k = s.find('/'); p.c.push_back(name(s.substr(0, k))); if (k == s.npos) break; s.remove_prefix(k + 1); }
    return p;
  }
  std::string text(Path const &p) {
    std::string s = p.abs ? root : "";
    for (size_t i = 0; i < p.c.size(); ++i) { if (i || p.abs) s += '/'; s += p.c[i] == -1 ? "." : p.c[i] == -2 ? ".." : NAMES[p.c[i]]; }
    return s;
  }
  std::string node(std::vector<int> const &n) { Path p; p.abs = true; p.c = n; return text(p); }
  std::vector<std::vector<int>> nodes; // as of the last scan
  void scan(std::vector<int> const &n, std::vector<std::string> &v) {
    struct stat st; std::string s = node(n);
    if (lstat(s.c_str(), &st)) { v.push_back(Rec().v("p", n).s("k", "?").i("c", 0).i("m", 0).j("t", jpath({})).str()); return; }
    nodes.push_back(n);
    Rec rec; rec.v("p", n);
    int m = st.st_mode & 07777;
    if (S_ISDIR(st.st_mode)) {
      v.push_back(rec.s("k", "dir").i("c", 0).i("m", m).j("t", jpath({})).str());
      if ((m & 0500) != 0500) chmod(s.c_str(), 0700);
      std::vector<std::string> kids;
      if (DIR *d = opendir(s.c_str())) {
        while (auto *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) kids.push_back(e->d_name);
        closedir(d);
      }
      std::sort(kids.begin(), kids.end());
      for (auto &k : kids) { auto x = n; x.push_back(name(k)); if (x.back() >= 1 && x.back() <= NN) scan(x, v); else v.push_back(Rec().v("p", x).s("k", "?").i("c", 0).i("m", 0).j("t", jpath({})).str()); }
      if ((m & 0500) != 0500) chmod(s.c_str(), m);
    } else if (S_ISREG(st.st_mode)) {
      if (!(m & 0400)) chmod(s.c_str(), 0600);
      v.push_back(rec.s("k", "file").i("c", content(slurp(s))).i("m", m).j("t", jpath({})).str());
      if (!(m & 0400)) chmod(s.c_str(), m);
    } else if (S_ISLNK(st.st_mode)) {
      char b[4096]; auto k = readlink(s.c_str(), b, sizeof b);
      v.push_back(rec.s("k", "link").i("c", 0).i("m", 0).j("t", jpath(parse({b, size_t(k < 0 ? 0 : k)}))).str());
    } else v.push_back(rec.s("k", "other").i("c", 0).i("m", 0).j("t", jpath({})).str());
  }
  std::string tree() { std::vector<std::string> v; nodes.clear(); scan({}, v); return jlist(v); }
  std::string last;
  void put(Ev &e) { auto t = tree(); e.b("same", t == last); if (t != last) e.j("tree", t); last = t; }
  static int openfds() { int n = 0; for (int i = 0; i < 64; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }
  // A path for an operation.
  Path some(bool removal = false, bool create = false) {
    Path p;
    if (!removal && r.chance(1, 30)) return p; // empty
    if (removal && r.chance(1, 40)) return p;
    p.abs = r.chance(1, 3);
    if (nodes.size() > 1 && r.chance(3, 5)) { // a node, or something in it
      p.c = nodes[r.range(removal ? 1 : 0, nodes.size() - 1)];
      if (r.chance(1, create ? 2 : 5)) p.c.push_back(r.range(1, NN));
    } else { for (int n = r.range(1, 3); n--;) p.c.push_back(r.range(1, NN)); }
    if (p.c.empty()) { if (!p.abs) p.c.push_back(-1); return p; }
    if (removal && p.c.size() < 1) p.c.push_back(1);
    // Decorate
    if (int lo = p.abs ? 0 : 1; lo < int(p.c.size()) && r.chance(1, 8)) p.c.insert(p.c.begin() + r.range(lo, p.c.size() - 1), 0);
    if (r.chance(1, 8)) p.c.insert(p.c.begin() + r.range(0, p.c.size() - 1), -1);
    if (r.chance(1, 8)) { std::vector<int> up{int(r.range(1, NN)), -2}; p.c.insert(p.c.begin() + r.range(0, p.c.size() - 1), up.begin(), up.end()); }
    if (!removal && r.chance(1, 12)) p.c.push_back(r.chance(1, 2) ? -1 : -2);
    if (!p.c.empty() && p.c[0] == 0 && !p.abs) p.c[0] = -1; // that would be an absolute path.
    while (p.c.size() > 1 && p.c.back() == 0) p.c.pop_back();
    if (r.chance(1, 6)) { // trailing separator, if that can make no difference for links and files that do not exist.
      struct stat st; bool there = 0 == lstat(text(p).c_str(), &st);
      if (there ? !S_ISLNK(st.st_mode) : create) p.c.push_back(0);
    }
    return p;
  }
  std::error_code stale() { return r.chance(1, 2) ? std::error_code() : std::error_code(r.range(1, 100), std::generic_category()); }
  int errval(std::error_code const &ec) { return !ec ? 0 : ec.category() == std::system_category() || ec.category() == std::generic_category() ? ec.value() : -99; }
  int nfds = 0;
  Ev ev(char const *op, Path const &p) { ep.pending(op); Ev e(op); e.j("p", jpath(p)).s("text", text(p)); nfds = openfds(); return e; }
  void done(Ev &e) { e.b("leak", openfds() != nfds); put(e); ep.emit(e); }
  static char const *type(file::file_status const &s) {
    switch (s.type()) {
    case file::file_type::none: return "error"; case file::file_type::not_found: return "none"; case file::file_type::regular: return "file"; case file::file_type::directory: return "dir";
    case file::file_type::symlink: return "link"; case file::file_type::block: return "block"; case file::file_type::character: return "char"; case file::file_type::fifo: return "fifo";
    case file::file_type::socket: return "socket"; default: return "unknown";
    }
  }
  static file::file_time_type tp(timespec const &t) {
    using namespace std::chrono; return file::file_time_type(duration_cast<file::file_time_type::duration>(seconds(t.tv_sec) + nanoseconds(t.tv_nsec)));
  }
  void plant() {
    ep.pending("plant");
    for (int n = r.range(1, 3); n--;) {
      std::vector<int> d;
      for (int k = 0; k < 10; ++k) { d = nodes[r.range(0, nodes.size() - 1)]; struct stat st; if (0 == lstat(node(d).c_str(), &st) && S_ISDIR(st.st_mode)) break; d.clear(); }
      if (d.size() > 3 || nodes.size() > 9) break;
      auto x = d; x.push_back(r.range(1, NN)); std::string s = node(x); struct stat st;
      // Work around the modes of the directory
      struct stat ds; if (lstat(node(d).c_str(), &ds)) break;
      if (0 == lstat(s.c_str(), &st) || errno == EACCES) continue;
      chmod(node(d).c_str(), 0700);
      switch (r.range(0, 3)) {
      case 0: mkdir(s.c_str(), 0755); break;
      case 1: { Path t; t.abs = r.chance(1, 3); if (r.chance(1, 2)) { t.c = nodes[r.range(0, nodes.size() - 1)]; } if (t.c.empty()) for (int k = r.range(1, 2); k--;) t.c.push_back(r.range(1, NN));
          if (symlink(text(t).c_str(), s.c_str())) {} } break;
      default: { auto c = fresh(); int fd = open(s.c_str(), O_WRONLY | O_CREAT, 0644); if (write(fd, c.data(), c.size())) {} close(fd);
          timespec ts[2] = {{r.range(-1000, 2000000000), r.range(0, 999999999)}, {r.range(-1000, 2000000000), r.range(0, 999999999)}}; utimensat(AT_FDCWD, s.c_str(), ts, 0); } break;
      }
      chmod(node(d).c_str(), ds.st_mode & 07777);
      tree();
    }
    if (nodes.size() > 1 && r.chance(1, 3)) { // change a mode
      auto s = node(nodes[r.range(1, nodes.size() - 1)]); struct stat st;
      static int const M[] = {0755, 0644, 0555, 0500, 0600, 0300, 0400, 0111, 0, 0777};
      if (0 == lstat(s.c_str(), &st) && !S_ISLNK(st.st_mode)) chmod(s.c_str(), r.chance(1, 2) ? 0755 : M[r.range(0, 9)]);
    }
    Ev e("plant"); put(e); ep.emit(e);
  }
  void where(Ev &e, path const &p) {
    auto s = p.string();
    bool in = s == root || s.compare(0, root.size() + 1, root + "/") == 0;
    std::vector<int> c; if (in && s != root) { Path q = parse(s); c = q.c; }
    e.b("none", p.empty()).j("res", Rec().b("in", in).v("c", c).str());
  }
  void step() {
    std::error_code ec = stale();
    static int const MODES[] = {0775, 0777, 0755, 0700, 0555, 0600, 0300};
    switch (r.range(0, 26)) {
    case 0: case 1: case 2: case 3: case 4: case 5: plant(); break;
    case 6: case 7: { Path p = some(false, true); if (p.c.size() > 7 || nodes.size() > 12) return; Ev e = ev("mkdir", p); int m = 0775; bool ok;
        if (r.chance(1, 2)) ok = file::create_directory(path(text(p)), ec); else { m = MODES[r.range(0, 6)]; ok = file::create_directory(path(text(p)), ec, m); }
        e.i("m", m).i("umask", mask).b("r", ok).i("e", errval(ec)); done(e); } break;
    case 8: case 9: { Path p = some(false, true); if (p.c.size() > 7 || nodes.size() > 12) return; Ev e = ev("mkdirs", p); int m = 0775; bool ok;
        if (r.chance(1, 2)) ok = file::create_directories(path(text(p)), ec); else { m = MODES[r.range(0, 6)]; ok = file::create_directories(path(text(p)), ec, m); }
        e.i("m", m).i("umask", mask).b("r", ok).i("e", errval(ec)); done(e); } break;
    case 10: case 11: { Path p = some(true); Ev e = ev("remove", p); bool ok = file::remove(path(text(p)), ec); e.b("r", ok).i("e", errval(ec)); done(e); } break;
    case 12: { Path p = some(true); Ev e = ev("removeall", p); auto n = file::remove_all(path(text(p)), ec); e.i("n", n).i("e", errval(ec)); done(e); } break;
    case 13: case 14: case 15: case 16: { Path p = some(), q = some(false, r.chance(1, 2)); if (nodes.size() > 12) return;
        if (q.c.size() > 1 && q.c.back() == 0) { struct stat st; if (stat(text(q).c_str(), &st)) q.c.pop_back(); }
        Ev e = ev("copy", p);
        struct stat st; long size = 0 == stat(text(p).c_str(), &st) ? st.st_size : 0, limit = MAX;
        rlimit old; getrlimit(RLIMIT_FSIZE, &old);
        if (r.chance(1, 5)) { limit = r.chance(1, 2) && size ? size - 1 : r.range(0, 100000); rlimit l = old; l.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &l); }
        bool ok = file::copy(path(text(p)), path(text(q)), ec);
        setrlimit(RLIMIT_FSIZE, &old);
        e.j("q", jpath(q)).s("qtext", text(q)).i("umask", mask).i("size", size).i("limit", limit).b("r", ok).i("e", errval(ec)); done(e); } break;
    case 17: { Path p = some(); Ev e = ev("full", p); struct stat st; long size = 0 == stat(text(p).c_str(), &st) ? st.st_size : 0;
        bool ok = file::copy(path(text(p)), path("/dev/full"), ec); e.i("size", size).b("r", ok).i("e", errval(ec)); done(e); } break;
    case 18: case 19: { Path p = some(); Ev e = ev("load", p); auto s = file::load(path(text(p)), ec); e.i("e", errval(ec)).i("c", ec ? 0 : content(s)); done(e); } break;
    case 20: case 21: { Path p = some(); path f(text(p)); Ev e = ev("status", p); auto s = file::status(f, ec); struct stat st; bool agree = false;
        if (0 == stat(f.c_str(), &st)) agree = s.mode() == st.st_mode && file::file_size(s) == uintmax_t(st.st_size) && file::last_write_time(s) == tp(st.st_mtim) && file::access_time(s) == tp(st.st_atim) && file::status_time(s) == tp(st.st_ctim)
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            && file::modify_time(s) == tp(st.st_mtim) && file::file_type(s) == int(st.st_mode & S_IFMT);
#pragma GCC diagnostic pop
        e.i("e", errval(ec)).s("type", type(s)).i("m", s.mode() & 07777).b("exists", file::exists(s)).b("pexists", file::exists(f)).b("isdir", file::is_dir(s)).b("isfile", file::is_regular_file(s))
          .b("ischar", file::is_char_device(s)).b("isblock", file::is_block_device(s)).b("readable", file::is_readable(f)).b("agree", agree); done(e); } break;
    case 22: if (r.chance(1, 2)) { Path p = some(); Ev e = ev("mtime", p); auto t = file::last_write_time(path(text(p)), ec); struct stat st; e.i("e", errval(ec)).b("min", t == file::file_time_type::min()).b("agree", 0 == stat(text(p).c_str(), &st) && tp(st.st_mtim) == t); done(e); }
      else special(ec); break;
    case 23: { Path p = some(); path f(text(p)); Ev e = ev("absolute", p); auto q = file::absolute(f, ec); e.i("e", errval(ec)).b("text", p.abs).b("same", q == f); where(e, q); done(e); } break;
    case 24: { Path p = some(); Ev e = ev("canonical", p); auto q = file::canonical(path(text(p)), ec); e.i("e", errval(ec)); where(e, q); done(e); } break;
    case 25: { Path p = some(); Ev e = ev("cwd", p); bool cd = 0 == chdir(text(p).c_str()); auto q = file::current_path(); if (chdir(root.c_str())) _exit(97); e.b("cd", cd); where(e, q); done(e); } break;
    default: if (r.chance(1, 2)) { static int const U[] = {022, 0, 077, 027, 0377}; umask(mask = U[r.range(0, 4)]); } else for (int k = 4; k--;) fd(); break;
    }
  }
  void special(std::error_code ec) {
    Path none; Ev e = ev("special", none); std::string f; char const *k;
    switch (r.range(0, 2)) {
    case 0: f = "/dev/null", k = "char"; break;
    case 1: f = BASE + "/fifo" + std::to_string(getpid()), k = "fifo"; mkfifo(f.c_str(), 0600); break;
    default: { f = BASE + "/sock" + std::to_string(getpid()), k = "socket"; int s = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; if (s < 0 || f.size() >= sizeof a.sun_path) { if (s >= 0) close(s); return; }
        strcpy(a.sun_path, f.c_str()); if (bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a)) { close(s); return; } close(s); }
    }
    auto s = file::status(path(f), ec);
    e.s("kind", k).s("type", type(s)).i("e", errval(ec)).b("exists", file::exists(s)).b("isdir", file::is_dir(s)).b("isfile", file::is_regular_file(s)).b("ischar", file::is_char_device(s)).b("isblock", file::is_block_device(s));
    if (f[1] != 'd') unlink(f.c_str());
    done(e);
  }
  std::vector<int> released;
  void fd() {
    ep.pending("fd");
    int i = r.range(0, 3), j = r.range(0, 3); Ev e("fd"); e.i("i", i + 1).i("j", j + 1);
    auto own = [&](int k) { return ufd[k] && int(*ufd[k]) != file::NO_FD; };
    int f = 0;
    switch (r.range(0, 4)) {
    case 0: case 1: if (own(i)) return; f = open("/dev/null", O_RDONLY); fds.insert(f); ufd[i].reset(new file::unique_fd(f)); e.s("f", "own"); break;
    case 2: if (own(i) || i == j || !ufd[j]) return; ufd[i].reset(new file::unique_fd(std::move(*ufd[j]))); e.s("f", "move"); break;
    case 3: if (!own(i)) return; f = ufd[i]->release(); released.push_back(f); e.s("f", "release"); break;
    default: if (!released.empty() && r.chance(1, 2)) { f = released.back(); released.pop_back(); close(f); e.s("f", "close"); break; }
      if (!ufd[i]) return; ufd[i].reset(); e.s("f", "drop"); break;
    }
    std::vector<int> o, v; for (int k : fds) if (fcntl(k, F_GETFD) >= 0) o.push_back(k);
    for (auto &u : ufd) v.push_back(u && int(*u) != file::NO_FD ? int(*u) : 0);
    e.i("fd", f).v("open", o).v("val", v); ep.emit(e);
  }
  void run() { umask(mask); for (int n = ep.thorough ? 60 : 45; n--;) step(); }
};
#include <grp.h>
int Drive::setgroups0() { return setgroups(0, nullptr); }

// Remove the scratch files, without following links.
static void scrap(std::string const &f) {
  struct stat st; if (lstat(f.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR *d = opendir(f.c_str())) {
      std::vector<std::string> v; while (auto *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(f + "/" + e->d_name);
      closedir(d); for (auto &s : v) scrap(s);
    }
    rmdir(f.c_str());
  } else unlink(f.c_str());
}
int main(int argc, char **argv) {
  BASE = "/tmp/vt-fs-XXXXXX";
  if (!mkdtemp(BASE.data())) { perror("mkdtemp"); return 3; }
  chmod(BASE.c_str(), 0777);
  int rc = vt::main(argc, argv, [](Ep &ep) { rename_all(ep.rng); Drive d(ep); d.run(); }, 800, 5000);
  scrap(BASE);
  return rc;
}
