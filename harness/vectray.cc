// Conformance driver for swoc::Vectray.
#include "vt.h"
#include "swoc/Vectray.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace vt;
using swoc::MemSpan;
using swoc::Vectray;
// Objects: where they live, to count them and to see objects constructed over others or destroyed twice.
static std::set<void const *> LIVE;
static int ODD = 0;
static void born(void const *p) { if (!LIVE.insert(p).second) ++ODD; }
// A step that fails: once armed, a construction or allocation of those that follow throws.
struct Boom {};
static int FUSE = -1, NEXT = -1;
static void fuse() { if (FUSE >= 0 && FUSE-- == 0) throw Boom(); }
static void arm() { FUSE = NEXT; }
static void dies(void const *p) { if (!LIVE.erase(p)) ++ODD; }
struct Str { // long enough to use the heap, holds a pointer to itself.
  std::string s; Str const *me;
  Str() : me(this) { fuse(); born(this); }
  Str(int x) : s(x < 0 ? "" : std::to_string(x) + std::string(x % 3 ? 40 : 0, '.')), me(this) { fuse(); born(this); }
  Str(int x, int y) : Str(x + y) {}
  Str(Str const &t) : s(t.s), me(this) { t.check(); fuse(); born(this); }
  Str(Str &&t) noexcept : s(std::move(t.s)), me(this) { t.check(); t.s.clear(); born(this); }
  Str &operator=(Str const &t) { check(); t.check(); fuse(); s = t.s; return *this; }
  Str &operator=(Str &&t) noexcept { check(); t.check(); if (this != &t) { s = std::move(t.s); t.s.clear(); } return *this; }
  ~Str() { check(); dies(this); }
  void check() const { if (me != this || !LIVE.count(this)) ++ODD; }
};
struct alignas(32) Wide {
  int x; char pad[32];
  Wide(int x = 0) : x(x) { ck(); born(this); }
  Wide(int x, int y) : Wide(x + y) {}
  Wide(Wide const &t) : x(t.x) { ck(); born(this); }
  Wide &operator=(Wide const &t) = default;
  ~Wide() { dies(this); }
  void ck() { if (reinterpret_cast<uintptr_t>(this) % 32) ++ODD; }
};
struct Own { // can only be moved
  std::unique_ptr<int> p;
  Own() { born(this); }
  Own(int x) : p(new int(x)) { born(this); }
  Own(int x, int y) : Own(x + y) {}
  Own(Own &&t) : p(std::move(t.p)) { born(this); }
  Own &operator=(Own &&t) = default;
  ~Own() { dies(this); }
};
static int val(Str const &t) { t.check(); return t.s.empty() ? -1 : atoi(t.s.c_str()); }
static int val(Wide const &t) { return t.x; }
static int val(Own const &t) { return t.p ? *t.p : -1; }
static int val(int t) { return t; }
// Allocators are told apart by an id, which the memory they provide is tagged with.
static std::map<void const *, int> MEM;
template <typename T> struct Alloc {
  using value_type = T;
  using is_always_equal = std::false_type;
  int id = 0;
  Alloc() = default;
  explicit Alloc(int i) : id(i) {}
  template <typename U> Alloc(Alloc<U> const &a) : id(a.id) {}
  T *allocate(size_t n) { fuse(); T *p = std::allocator<T>().allocate(n); MEM[p] = id; return p; }
  void deallocate(T *p, size_t n) { if (!MEM.count(p) || MEM[p] != id) ++ODD; MEM.erase(p); std::allocator<T>().deallocate(p, n); }
  bool operator==(Alloc const &that) const { return id == that.id; }
  bool operator!=(Alloc const &that) const { return id != that.id; }
};
constexpr int BOXES = 4;

template <typename T, size_t N, size_t M> struct Drive {
  static constexpr bool own = std::is_class_v<T>, copies = std::is_copy_constructible_v<T>;
  using V = Vectray<T, N, Alloc<T>>;
  using W = Vectray<T, M, Alloc<T>>;
  Ep &ep; Rng &r;
  std::unique_ptr<V> v[BOXES]; std::unique_ptr<W> w[BOXES]; // either in each.
  int x = 0;
  Drive(Ep &e) : ep(e), r(e.rng) { T d{}; Ev ev("start"); ev.i("boxes", BOXES).b("own", own).i("d", val(d)); ep.emit(ev); }
  template <typename C> std::string obs(C &c) {
    C const &k = c;
    std::vector<long> s, t;
    for (auto &e : c) s.push_back(val(e));
    bool agree = true;
    for (auto const &e : k) t.push_back(val(e));
    agree = agree && s == t;
    t.clear(); for (size_t i = 0; i < k.size(); ++i) t.push_back(val(k[i]));
    agree = agree && s == t;
    t.clear(); for (size_t i = 0; i < c.size(); ++i) t.push_back(val(c[i]));
    agree = agree && s == t;
    MemSpan<T> ms = c; t.clear(); for (auto &e : ms) t.push_back(val(e));
    agree = agree && s == t;
    MemSpan<T const> cs = k; t.clear(); for (auto &e : cs) t.push_back(val(e));
    agree = agree && s == t && c.data() == k.data() && ms.data() == cs.data() && c.end() - c.begin() == long(s.size()) && k.end() - k.begin() == long(s.size());
    if (!s.empty()) agree = agree && &c[0] == c.data() && &k[0] == k.data() && ms.data() == k.data() && k.begin() == k.data() && c.begin() == c.data();
    auto p = reinterpret_cast<char const *>(k.data()), q = reinterpret_cast<char const *>(&k);
    bool in = p >= q && p < q + sizeof(C);
    auto spot = MEM.find(p);
    if (!in && !s.empty() && spot == MEM.end()) ++ODD;
    return Rec().v("v", s).b("agree", agree).i("size", k.size()).b("empty", k.empty()).b("in", in).i("al", spot == MEM.end() ? 0 : spot->second).str();
  }
  std::string obs(int i) { return v[i] ? obs(*v[i]) : w[i] ? obs(*w[i]) : std::string(); }
  bool has(int i) { return v[i] || w[i]; }
  Ev ev(char const *op, int i) { Ev e(op); e.i("i", i + 1); return e; }
  void done(Ev &e, int i) { std::string o = obs(i); e.j("o", o); e.i("live", LIVE.size()).i("odd", ODD); ep.emit(e); }
  void done2(Ev &e, int i, int j) { std::string o2 = obs(j); e.i("j", j + 1).j("o2", o2); done(e, i); }
  template <typename F> auto on(int i, F &&f) { return v[i] ? f(*v[i]) : f(*w[i]); }
  size_t size(int i) { return on(i, [](auto &c) { return c.size(); }); }
  // The step threw: what is left of the containers it involved.
  void failed(char const *op, int i, int j, int k) {
    FUSE = -1; ep.pending("fail");
    Ev e = ev("fail", i); e.s("what", op).i("j", j + 1).i("k", k + 1).b("has", has(i));
    if (has(i)) e.j("o", obs(i));
    if (has(j)) e.j("o2", obs(j));
    e.i("live", LIVE.size()).i("odd", ODD); ep.emit(e);
  }
  template <typename F> bool attempt(char const *op, int i, int j, int k, F &&f) {
    NEXT = r.chance(1, 4) ? int(r.range(0, 3)) : -1;
    try { f(); FUSE = -1; return true; } catch (Boom const &) { failed(op, i, j, k); return false; }
  }
  void make(int i) {
    bool big = r.chance(1, 3);
    int al = r.range(0, 3);
    int n = r.range(0, 2 * (big ? M : N));
    int f = r.range(0, 3);
    auto mk = [&](auto &p) {
      using C = typename std::decay_t<decltype(p)>::element_type;
      if (f == 0) arm(), p.reset(new C), al = 0;
      else if (f == 1) arm(), p.reset(new C(Alloc<T>(al)));
      else if (f == 2) arm(), p.reset(new C(n)), al = 0;
      else arm(), p.reset(new C(n, Alloc<T>(al)));
    };
    if (!attempt("new", i, i, -1, [&] { big ? mk(w[i]) : mk(v[i]); })) return;
    Ev e = ev(f < 2 ? "new" : "newn", i);
    e.i("n", big ? M : N).i("al", al).i("k", n); done(e, i);
  }
  void step() {
    int i = r.range(0, BOXES - 1), j = r.range(0, BOXES - 1);
    if (!has(i)) {
      if (has(j) && !r.chance(1, 3)) {
        switch (r.range(0, 3)) {
        case 0: if constexpr (copies) { ep.pending("copy"); Ev e = ev("copy", i);
            if (!attempt("copy", i, j, -1, [&] { arm(); if (v[j]) v[i].reset(new V(const_cast<V const &>(*v[j]))); else w[i].reset(new W(const_cast<W const &>(*w[j]))); })) return;
            e.i("j", j + 1); done(e, i); } break;
        case 1: { ep.pending("move"); Ev e = ev("move", i); if (!attempt("move", i, j, -1, [&] { arm(); if (v[j]) v[i].reset(new V(std::move(*v[j]))); else w[i].reset(new W(std::move(*w[j]))); })) return; done2(e, i, j); } break;
        case 2: { ep.pending("moveto"); Ev e = ev("moveto", i); if (!attempt("moveto", i, j, -1, [&] { arm(); if (v[j]) w[i].reset(new W(std::move(*v[j]))); else v[i].reset(new V(std::move(*w[j]))); })) return; e.i("n", v[j] ? M : N); done2(e, i, j); } break;
        default: { ep.pending("movewith"); Ev e = ev("movewith", i); Alloc<T> a(r.range(0, 3)); if (!attempt("movewith", i, j, -1, [&] { arm(); if (v[j]) v[i].reset(new V(std::move(*v[j]), a)); else w[i].reset(new W(std::move(*w[j]), a)); })) return; e.i("al", a.id); done2(e, i, j); } break;
        }
      } else make(i);
      return;
    }
    int n = size(i);
    switch (r.range(0, 15)) {
    case 0: if (!r.chance(1, 2)) break; { ep.pending("drop"); v[i].reset(); w[i].reset(); Ev e = ev("drop", i); e.i("live", LIVE.size()).i("odd", ODD); ep.emit(e); } break;
    case 1: if (has(j) && bool(v[i]) == bool(v[j])) { if constexpr (copies) { ep.pending("assign"); Ev e = ev("assign", i);
            if (!attempt("assign", i, j, -1, [&] { arm(); if (v[i]) *v[i] = const_cast<V const &>(*v[j]); else *w[i] = const_cast<W const &>(*w[j]); })) return;
            e.i("j", j + 1); done(e, i); } } break;
    case 2: if (i != j && has(j) && bool(v[i]) == bool(v[j])) { ep.pending("moveassign"); Ev e = ev("moveassign", i); if (!attempt("moveassign", i, j, -1, [&] { arm(); if (v[i]) *v[i] = std::move(*v[j]); else *w[i] = std::move(*w[j]); })) return; done2(e, i, j); } break;
    case 3: case 4: case 5: case 6: if (n < 12) { ep.pending("push"); ++x; int f = r.range(0, 3); bool same = true;
        if (!attempt("push", i, i, -1, [&] { on(i, [&](auto &c) {
          auto *self = &c;
          if (f == 0) { if constexpr (copies) { T t(x); arm(); self = &c.push_back(t); if (val(t) != x) ++ODD; } else self = &c.push_back(T(x)); }
          else if (f == 1) { T t(x); arm(); self = &c.push_back(std::move(t)); }
          else if (f == 2) { arm(); self = &c.emplace_back(x); }
          else { arm(); if constexpr (own) self = &c.emplace_back(x - 5, 5); else self = &c.emplace_back(x); }
          same = self == &c;
        }); })) return;
        Ev e = ev("push", i); e.i("x", x).b("same", same); done(e, i); } break;
    case 7: case 8: if (n > 0 && n < 12) { ep.pending("pushself"); int k = r.range(0, n - 1); int f = r.range(0, 3); bool same = true, moved = f == 1 || f == 3;
        if (!copies) moved = true;
        if (!attempt(moved ? "pushmoved" : "pushself", i, i, k, [&] { on(i, [&](auto &c) {
          auto *self = &c;
          arm();
          if (moved) { if (f & 1) self = &c.push_back(std::move(c[k])); else self = &c.emplace_back(std::move(c[k])); }
          else if constexpr (copies) { if (f == 0) self = &c.push_back(c[k]); else self = &c.emplace_back(c[k]); }
          same = self == &c;
        }); })) return;
        Ev e = ev("pushself", i); e.i("k", k).b("moved", moved).b("same", same); done(e, i); } break;
    case 9: case 10: if (n > 0) { ep.pending("pop"); bool same = on(i, [&](auto &c) { return &c.pop_back() == &c; }); Ev e = ev("pop", i); e.b("same", same); done(e, i); } break;
    case 11: if (n > 0) { ep.pending("put"); int k = r.range(0, n - 1); ++x; int f = r.range(0, 4);
        on(i, [&](auto &c) {
          using C = std::decay_t<decltype(c)>;
          if (f == 0) c[k] = T(x); else if (f == 1) { typename C::reference t = *(c.begin() + k); t = T(x); } else if (f == 2) { typename C::span s = c; s[k] = T(x); }
          else if (f == 3) { k = 0; c.front() = T(x); } else { k = n - 1; c.back() = T(x); }
        });
        Ev e = ev("put", i); e.i("k", k).i("x", x); done(e, i); } break;
    case 12: { ep.pending("reserve"); int k = r.chance(1, 2) ? r.range(0, N) : r.range(0, 14); if (!attempt("reserve", i, i, -1, [&] { arm(); on(i, [&](auto &c) { c.reserve(k); }); })) return; Ev e = ev("reserve", i); e.i("k", k); done(e, i); } break;
    case 13: if (n > 0) { ep.pending("ends"); Ev e = ev("ends", i);
        on(i, [&](auto &c) { auto const &k = c; bool q = r.chance(1, 2); e.i("front", val(q ? c.front() : k.front())).i("back", val(q ? c.back() : k.back())); });
        done(e, i); } break;
    default: break;
    }
  }
  void run() {
    for (int n = ep.thorough ? 90 : 50; n--;) step();
    for (int i = 0; i < BOXES; ++i) v[i].reset(), w[i].reset();
    Ev e("end"); e.i("left", LIVE.size()).i("mem", MEM.size()).i("odd", ODD); ep.emit(e);
  }
};

static void episode(Ep &ep) {
  switch (ep.id % 6) {
  case 0: Drive<Str, 1, 2>(ep).run(); break;
  case 1: Drive<Str, 3, 1>(ep).run(); break;
  case 2: Drive<int, 4, 2>(ep).run(); break;
  case 3: Drive<Wide, 2, 1>(ep).run(); break;
  case 4: Drive<Own, 2, 4>(ep).run(); break;
  default: Drive<Str, 2, 5>(ep).run(); break;
  }
}
int main(int argc, char **argv) { return vt::main(argc, argv, episode, 600, 6000); }
