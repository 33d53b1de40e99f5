// Conformance driver for swoc::file::path and temp_directory_path.
#include "vt.h"
#include "swoc/swoc_file.h"
#include "swoc/bwf_base.h"
#include <optional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace vt;
namespace file = swoc::file;
using file::path;

struct Drive {
  Ep &ep; Rng &r;
  static constexpr int N = 5;
  std::optional<path> reg[N];
  Drive(Ep &e) : ep(e), r(e.rng) {
    for (auto &p : reg) p.emplace();
    Ev ev("start"); ev.i("n", N); ep.emit(ev);
  }
  std::string text() {
    static char const *const C[] = {"a", "bb", "c.d", "..", ".", "/", "/", "//", "long-component-name-that-does-not-fit-in-a-small-string", " ", "\xc3\xa9", "a\\b"};
    std::string s;
    switch (r.range(0, 9)) {
    case 0: return "";
    case 1: return "/";
    case 2: return "name";
    case 3: return std::string(r.range(1, 4), '/');
    case 4: { s = "nul"; s += char(0); s += "/x"; return s; }
    default:
      for (int n = r.range(1, 6); n--;) { s += C[r.range(0, 11)]; if (r.chance(1, 2)) s += '/'; }
      return s;
    }
  }
  std::string obs(path const &p) {
    auto const &s = p.string(); auto v = p.view(); char const *c = p.c_str();
    bool agree = v.data() == s.data() && v.size() == s.size() && c == s.c_str() && c[s.size()] == 0 && p == p && !(p != p) && p == path(s) && std::hash<path>()(p) == std::hash<path>()(path(s));
    return Rec().t("t", s).i("n", v.size()).b("agree", agree).b("empty", p.empty()).b("abs", p.is_absolute()).b("rel", p.is_relative()).str();
  }
  Ev ev(char const *op, int i) { ep.pending(op); Ev e(op); e.i("i", i + 1); return e; }
  void done(Ev &e, int i) { e.j("o", obs(*reg[i])); ep.emit(e); }
  std::string_view part(path const &p) {
    std::string_view v = p.view(); size_t a = r.range(0, v.size() - 1);
    return r.chance(1, 3) ? v : v.substr(a, r.range(1, v.size() - a));
  }
  void make(int i) {
    std::string t = text();
    Ev e = ev("make", i);
    if (reg[i]->view().size() && r.chance(1, 8)) { // (part of) the path itself
      auto v = part(*reg[i]); t = std::string(v);
      if (r.chance(1, 2)) *reg[i] = v; else { t = v.data(); *reg[i] = v.data(); }
      e.t("t", t); done(e, i); return;
    }
    if (t.find('\0') == t.npos && r.chance(1, 3)) { if (r.chance(1, 2)) reg[i].emplace(t.c_str()); else *reg[i] = t.c_str(); }
    else {
      std::string c = t; std::string_view sv = c; swoc::TextView tv{c}; bool self = true;
      switch (r.range(0, 7)) {
      case 0: reg[i].emplace(c); break;
      case 1: reg[i].emplace(std::move(c)); break;
      case 2: reg[i].emplace(sv); break;
      case 3: self = &(*reg[i] = c) == &*reg[i]; break;
      case 4: self = &(*reg[i] = std::move(c)) == &*reg[i]; break;
      case 5: self = &(*reg[i] = sv) == &*reg[i]; break;
      case 6: reg[i].emplace(tv); break;
      default: *reg[i] = path(sv); break;
      }
      if (!self) t += "?";
    }
    e.t("t", t); done(e, i);
  }
  void step() {
    int i = r.range(0, N - 1), j = r.range(0, N - 1), k = r.range(0, N - 1);
    auto &p = *reg[i];
    if (p.view().size() > 300) { make(i); return; }
    switch (r.range(0, 19)) {
    case 0: case 1: case 2: make(i); break;
    case 3: { Ev e = ev("copy", i); if (r.chance(1, 2) && i != j) reg[i].emplace(*reg[j]); else p = *reg[j]; e.i("j", j + 1).t("src", reg[j]->string()); done(e, i); } break;
    case 4: if (i != j) { Ev e = ev("move", i); if (r.chance(1, 2)) reg[i].emplace(std::move(*reg[j])); else p = std::move(*reg[j]);
        std::string t = text(); *reg[j] = t; e.i("j", j + 1).t("src", t); done(e, i); } break;
    case 5: if (!p.empty()) { Ev e = ev("append", i); auto v = part(p); std::string t(v); auto *q = &(p /= v); e.t("t", t).b("self", q == &p); done(e, i); break; } // part of itself
    [[fallthrough]];
    case 6: case 7: { Ev e = ev("append", i); std::string t = text(); auto *q = &(p /= std::string_view(t)); e.t("t", t).b("self", q == &p); done(e, i); } break;
    case 8: case 9: { Ev e = ev("appendp", i); auto *q = &(p /= *reg[j]); e.i("j", j + 1).b("self", q == &p).t("src", reg[j]->string()); done(e, i); } break;
    case 10: { Ev e = ev("join", i); std::string t = text();
        if (r.chance(1, 2)) p = *reg[j] / std::string_view(t); else p = path(*reg[j]) / std::string_view(t);
        e.i("j", j + 1).t("t", t).t("src", reg[j]->string()); done(e, i); } break;
    case 11: case 12: { Ev e = ev("joinp", i);
        if (r.chance(1, 2)) { path q = *reg[j] / *reg[k]; p = q; } else { path q = path(*reg[j]) / *reg[k]; p = std::move(q); }
        e.i("j", j + 1).i("k", k + 1).t("src", reg[j]->string()).t("src2", reg[k]->string()); done(e, i); } break;
    case 13: { Ev e = ev("parent", i); p = reg[j]->parent_path(); e.i("j", j + 1); done(e, i); } break;
    case 14: { Ev e = ev("filename", i); p = reg[j]->filename(); e.i("j", j + 1); done(e, i); } break;
    case 15: { Ev e = ev("relative", i); p = reg[j]->relative_path(); e.i("j", j + 1); done(e, i); } break;
    case 16: { Ev e = ev("reserve", i); auto *q = &p.reserve(r.range(0, 200)); e.b("self", q == &p); done(e, i); } break;
    case 17: { Ev e = ev("compare", i); std::hash<path> h; e.i("j", j + 1).b("eq", p == *reg[j]).b("ne", p != *reg[j]).b("hash", h(p) == h(*reg[j])); ep.emit(e); } break;
    case 18: if (r.chance(1, 2)) { Ev e = ev("keys", i); std::unordered_set<path> s; for (auto &q : reg) s.insert(*q);
        std::vector<std::string> f; for (auto &q : s) f.push_back(jbytes(q.string())); e.i("n", s.size()).j("found", jlist(f)); ep.emit(e); }
      else { Ev e = ev("temp", i); std::vector<std::string> env;
        for (char const *n : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) {
          bool set = r.chance(1, 3); std::string v = text(); v = v.c_str();
          if (set) setenv(n, v.c_str(), 1); else unsetenv(n);
          env.push_back(Rec().b("set", set).t("v", v).str());
        }
        p = file::temp_directory_path(); e.j("env", jlist(env)); done(e, i); } break;
    default: { Ev e = ev("print", i); int w = r.chance(1, 2) ? 0 : r.range(0, 40), x = r.chance(1, 2) ? -1 : r.range(1, 20); bool right = r.chance(1, 2);
        std::string f = w ? std::string("{:*") + (right ? '>' : '<') + std::to_string(w) : std::string("{:"), s;
        if (x >= 0) f += "." + std::to_string(x); f += "}";
        swoc::bwprint(s, std::string_view(f), p); e.i("w", w).i("x", x).b("right", right).t("t", s); ep.emit(e); } break;
    }
  }
  void run() { for (int n = ep.thorough ? 60 : 40; n--;) step(); }
};
int main(int argc, char **argv) { return vt::main(argc, argv, [](Ep &ep) { Drive(ep).run(); }, 800, 10000); }
