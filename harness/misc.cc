// Conformance driver: red black tree, cost of look ups in a DiscreteSpace, scoped values, FNV hashes.
#include "vt.h"
#include "swoc/DiscreteRange.h"
#include "swoc/RBTree.h"
#include "swoc/swoc_meta.h"
#include "swoc/ext/HashFNV.h"
#include <algorithm>
#include <cctype>
#include <limits>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
using namespace vt;

// --- Red black tree, used as its clients do: link at a leaf, rebalance.
using RB = swoc::detail::RBNode;
using Dir = RB::Direction;
struct N : RB {
  int id, n = 1, sum, lo, hi; // size, sum, and ends of the tree below.
  explicit N(int i) : id(i), sum(i), lo(i), hi(i) {}
  static N *of(RB *b) { return static_cast<N *>(b); }
  void structure_fixup() override {
    N *l = of(child_at(Dir::LEFT)), *r = of(child_at(Dir::RIGHT));
    n = 1 + (l ? l->n : 0) + (r ? r->n : 0);
    sum = id + (l ? l->sum : 0) + (r ? r->sum : 0);
    lo = l ? l->lo : id;
    hi = r ? r->hi : id;
  }
};
struct Tree {
  Ep &ep; Rng &r;
  N *root = nullptr;
  std::vector<std::unique_ptr<N>> all; // every node ever, by id - 1.
  std::vector<int> order;              // the driver's own idea of the order, to find places.
  explicit Tree(Ep &e) : ep(e), r(e.rng) {}
  N *fresh() { all.push_back(std::make_unique<N>(int(all.size()) + 1)); return all.back().get(); }
  static int id(RB *b) { return b ? N::of(b)->id : 0; }
  // Everything reachable from the root.
  void put(Ev &ev) {
    std::vector<std::string> t; std::vector<N *> todo; size_t cap = all.size() + 5;
    if (root) todo.push_back(root);
    while (!todo.empty() && t.size() < cap) {
      N *n = todo.back(); todo.pop_back();
      RB *l = n->child_at(Dir::LEFT), *rr = n->child_at(Dir::RIGHT);
      int bad = 0;
      if (l && n->direction_of(l) != Dir::LEFT) bad |= 1;
      if (rr && n->direction_of(rr) != Dir::RIGHT) bad |= 2;
      if (n->child_at(Dir::NONE)) bad |= 4;
      t.push_back(jints(std::vector<int>{n->id, id(l), id(rr), id(n->_parent), n->color() == RB::Color::RED, n->n, n->sum, n->lo, n->hi, bad}));
      if (l) todo.push_back(N::of(l));
      if (rr) todo.push_back(N::of(rr));
    }
    ev.i("root", id(root)).j("t", jlist(t)).i("first", root ? id(root->left_most_descendant()) : 0);
  }
  // Link at position pos of the order.
  void insert(bool fix) {
    N *n = fresh(); int pos = r.chance(1, 4) ? 0 : r.chance(1, 3) ? int(order.size()) : r.range(0, order.size());
    if (!root) { root = n; if (fix) root = N::of(n->rebalance_after_insert()); }
    else {
      // after the element before the place, or before the element after it; one of them has no child there.
      RB *to; Dir d;
      RB *a = pos > 0 ? all[order[pos - 1] - 1].get() : nullptr, *b = pos < int(order.size()) ? all[order[pos] - 1].get() : nullptr;
      if (a && !a->child_at(Dir::RIGHT)) { to = a; d = Dir::RIGHT; } else { to = b; d = Dir::LEFT; }
      RB *got = to->set_child(n, d);
      if (fix) root = N::of(n->rebalance_after_insert()); else n->ripple_structure_fixup();
      if (got != n) root = nullptr;
    }
    order.insert(order.begin() + pos, n->id);
    Ev ev("insert"); ev.i("pos", pos).i("id", n->id); put(ev); ep.emit(ev);
  }
  void remove() {
    int pos = r.chance(1, 4) ? 0 : r.chance(1, 3) ? int(order.size()) - 1 : r.range(0, order.size() - 1);
    if (r.chance(1, 5)) for (size_t i = 0; i < order.size(); ++i) if (order[i] == root->id) pos = i;
    int i = order[pos];
    root = N::of(all[i - 1]->remove());
    order.erase(order.begin() + pos);
    Ev ev("remove"); ev.i("pos", pos).i("id", i); put(ev);
    all[i - 1].reset(new N(i)); // the node is gone: whoever still refers to it reads released memory.
    ep.emit(ev);
  }
  void replace() {
    int pos = r.range(0, order.size() - 1); N *o = all[order[pos] - 1].get(), *n = fresh();
    o->replace_with(n);
    N *top = N::of(n->ripple_structure_fixup());
    if (o == root) root = n;
    if (top != root) root = nullptr;
    Ev ev("replace"); ev.i("pos", pos).i("id", n->id); order[pos] = n->id; put(ev);
    all[o->id - 1].reset(new N(o->id));
    ep.emit(ev);
  }
  void rotate() {
    N *n = all[r.pick(order) - 1].get(); Dir d = r.chance(1, 9) ? Dir::NONE : r.chance(1, 2) ? Dir::LEFT : Dir::RIGHT;
    RB *other = n->child_at(n->flip(d)); bool moves = d != Dir::NONE && other;
    RB *top = n->rotate(d);
    if (moves && n == root) root = N::of(top);
    RB *want = moves ? other : n;
    for (RB *p = top->_parent; p; p = p->_parent) p->structure_fixup(); // ancestors, which are not notified by a rotation.
    Ev ev("rotate"); ev.i("id", n->id).i("d", d == Dir::LEFT ? 1 : d == Dir::RIGHT ? 2 : 0).b("top", top == want); put(ev); ep.emit(ev);
  }
  void run() {
    if (r.chance(1, 4)) { // any shape, rotations only.
      Ev e0("shape"); put(e0); ep.emit(e0);
      for (int k = r.range(2, 12); k > 0; --k) insert(false);
      for (int k = r.range(5, 20); k > 0; --k) rotate();
      return;
    }
    int bias = r.range(1, 3);
    for (int k = ep.thorough ? 90 : 60; k > 0; --k) {
      ep.pending("tree");
      if (order.empty() || r.chance(bias, 4)) insert(true);
      else if (r.chance(1, 12)) replace();
      else if (r.chance(1, 25)) { while (!order.empty() && r.chance(9, 10)) remove(); }
      else remove();
    }
  }
};

// --- Cost of operations of a space, in comparisons of the metric.
static long Cmp = 0;
struct M {
  int v = 0;
  M() = default;
  M(int i) : v(i) {}
  bool operator<(M const &o) const { ++Cmp; return v < o.v; }
  bool operator==(M const &o) const { ++Cmp; return v == o.v; }
  bool operator!=(M const &o) const { ++Cmp; return v != o.v; }
  bool operator>(M const &o) const { ++Cmp; return v > o.v; }
  bool operator<=(M const &o) const { ++Cmp; return v <= o.v; }
  bool operator>=(M const &o) const { ++Cmp; return v >= o.v; }
  M &operator++() { ++v; return *this; }
  M &operator--() { --v; return *this; }
};
namespace std {
template <> struct numeric_limits<M> : numeric_limits<int> {
  static M min() { return M(numeric_limits<int>::min()); }
  static M max() { return M(numeric_limits<int>::max()); }
};
} // namespace std
static void cost(Ep &ep) {
  Rng &r = ep.rng;
  using Space = swoc::DiscreteSpace<M, int>;
  Space sp;
  static int const NS[] = {1, 10, 100, 1000, 4000};
  int n = NS[r.range(0, 4)], how = r.range(0, 3);
  std::vector<int> at(n);
  for (int i = 0; i < n; ++i) at[i] = i;
  if (how == 1) std::reverse(at.begin(), at.end());
  if (how == 2) for (int i = n - 1; i > 0; --i) std::swap(at[i], at[r.range(0, i)]);
  if (how == 3) for (int i = 0; i < n; ++i) at[i] = i % 2 ? n - 1 - i / 2 : i / 2; // from both ends
  auto worst = [&](char const *what, int have, std::vector<int> const &where, auto &&f) {
    long w = 0; bool ok = true;
    for (int i : where) { Cmp = 0; ok = f(i) && ok; w = std::max(w, Cmp); }
    Ev ev("cost"); ev.s("what", what).i("n", have).i("cmp", w).b("ok", ok); ep.emit(ev);
  };
  auto find = [&](int i) { return sp.find(M(10 * i + 2)) != sp.end() && sp.find(M(10 * i + 7)) == sp.end(); };
  ep.pending("cost");
  bool fill = r.chance(1, 3);
  worst(fill ? "fill" : "mark", n, at, [&](int i) { swoc::DiscreteRange<M> g(M(10 * i), M(10 * i + 5)); if (fill) sp.fill(g, i); else sp.mark(g, i); return true; });
  worst("find", n, at, find);
  worst("miss", n, {-1, n}, [&](int i) { return sp.find(M(10 * i + 2)) == sp.end(); });
  // every gap of a part of it
  std::vector<int> gone(at.begin(), at.begin() + n / 2), kept(at.begin() + n / 2, at.end());
  worst("erase", n, gone, [&](int i) { sp.erase(swoc::DiscreteRange<M>(M(10 * i), M(10 * i + 5))); return true; });
  worst("find", kept.size(), kept, find);
  worst("miss", kept.size(), gone, [&](int i) { return sp.find(M(10 * i + 2)) == sp.end(); });
  Ev ev("count"); ev.i("n", kept.size()).i("count", sp.count()); ep.emit(ev);
}

// --- Scoped values
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Fragile { // text which may fail to be copied.
  std::string s;
  static inline bool Fail = false;
  Fragile(std::string t = "") : s(std::move(t)) {}
  Fragile(Fragile const &o) : s(o.s) { if (Fail) throw Boom("copy"); }
  Fragile(Fragile &&o) noexcept : s(std::move(o.s)) { o.s = "gone"; }
  Fragile &operator=(Fragile const &o) { if (Fail) throw Boom("copy"); s = o.s; return *this; }
  Fragile &operator=(Fragile &&o) noexcept { if (this != &o) { s = std::move(o.s); o.s = "gone"; } return *this; }
};
struct Lets {
  Ep &ep; Rng &r;
  int i[2] = {1, 2}; std::string s[2] = {"a", "a text too long for a small string"}; std::unique_ptr<int> p[2]; Fragile f[2];
  Lets(Ep &e) : ep(e), r(e.rng) { p[0] = std::make_unique<int>(5); f[0].s = "x"; }
  // As numbers: every variable is known by its value.
  std::vector<std::string> texts;
  int text(std::string const &t) { for (size_t k = 0; k < texts.size(); ++k) if (texts[k] == t) return k + 1; texts.push_back(t); return texts.size(); }
  std::string fresh() { int n = r.range(0, 5); return n == 0 ? "" : n < 3 ? std::string(1, 'a' + r.range(0, 4)) : std::string(r.range(15, 40), 'a' + r.range(0, 3)); }
  void put(Ev &ev) {
    std::vector<int> v{i[0], i[1], text(s[0]), text(s[1]), p[0] ? *p[0] : 0, p[1] ? *p[1] : 0, text(f[0].s), text(f[1].s)};
    ev.v("v", v); ep.emit(ev);
  }
  int budget = 40;
  void note(char const *op, int var, int val) { Ev ev(op); ev.i("k", var).i("x", val); put(ev); }
  void scope(int depth) {
    while (budget-- > 0) {
      int k = r.range(0, 7), w = k / 2, z = k % 2;
      switch (r.range(0, 6)) {
      case 0: { // plain change inside of the scope.
        if (w == 0) { i[z] = r.range(-3, 30); note("set", k, i[z]); }
        else if (w == 1) { s[z] = fresh(); note("set", k, text(s[z])); }
        else if (w == 2) { p[z] = std::make_unique<int>(r.range(1, 40)); note("set", k, *p[z]); }
        else { f[z].s = fresh(); note("set", k, text(f[z].s)); }
      } break;
      case 1: if (depth > 0) return; break;
      case 2: if (depth > 0) { Ev ev("throw"); put(ev); throw Boom("scope"); } break;
      default: {
        if (depth > 6) return;
        bool copy = r.chance(1, 2), same = copy && r.chance(1, 4); // same: the value is the variable itself.
        int d0 = depth;
        try {
          if (w == 0) { int val = same ? i[z] : r.range(-3, 30); if (same) { swoc::meta::let l(i[z], i[z]); note("let", k, val); scope(depth + 1); } else { swoc::meta::let l(i[z], val); note("let", k, val); scope(depth + 1); } }
          else if (w == 1) {
            std::string val = same ? s[z] : r.chance(1, 4) ? s[1 - z] : fresh(); std::string const c = val;
            if (same) { std::string const &me = s[z]; swoc::meta::let l(s[z], me); note("let", k, text(c)); scope(depth + 1); }
            else if (copy) { swoc::meta::let l(s[z], c); note("let", k, text(c)); scope(depth + 1); }
            else { swoc::meta::let<std::string> l(s[z], std::move(val)); note("let", k, text(c)); scope(depth + 1); }
          } else if (w == 2) {
            int val = r.range(0, 40); std::unique_ptr<int> np; if (val) np = std::make_unique<int>(val);
            swoc::meta::let l(p[z], std::move(np)); note("let", k, val); scope(depth + 1);
          } else {
            Fragile const c(fresh());
            bool fail = copy && r.chance(1, 2);
            if (fail) {
              bool threw = false; Fragile::Fail = true;
              try { swoc::meta::let l(f[z], c); } catch (Boom const &) { threw = true; }
              Fragile::Fail = false;
              Ev ev("fail"); ev.i("k", k).b("threw", threw); put(ev);
              break;
            }
            if (copy) { swoc::meta::let l(f[z], c); note("let", k, text(c.s)); scope(depth + 1); }
            else { Fragile t(c); swoc::meta::let<Fragile> l(f[z], std::move(t)); note("let", k, text(c.s)); scope(depth + 1); }
          }
        } catch (Boom const &) { if (d0 > 0 && r.chance(1, 2)) { Ev ev("close"); put(ev); throw; } }
        Ev ev("close"); put(ev);
      } break;
      }
    }
  }
  void run() {
    Ev ev("start"); put(ev);
    scope(0);
  }
};
// Overloads combined, and type lists.
static void choose(Ep &ep) {
  Rng &r = ep.rng;
  using TL = swoc::meta::type_list<int, bool, std::string, double>;
  using V = TL::apply<std::variant>;
  static_assert(std::is_same_v<V, std::variant<int, bool, std::string, double>>);
  std::vector<V> vs{V(7), V(true), V(std::string("q")), V(1.5)};
  for (int k = 0; k < 10; ++k) {
    int x = r.range(0, 3);
    int got = std::visit(swoc::meta::vary{[](int) { return 0; }, [](bool) { return 1; }, [](std::string const &) { return 2; }, [](double) { return 3; }}, vs[x]);
    int gen = std::visit(swoc::meta::vary{[](std::string &) { return 2; }, [](auto &&) { return 9; }}, vs[x]);
    Ev ev("vary"); ev.i("x", x).i("got", got).i("gen", gen); ep.emit(ev);
  }
  Ev ev("types");
  ev.i("size", TL::size).i("none", swoc::meta::type_list<>::size)
    .j("has", jlist({TL::contains<int> ? "1" : "0", TL::contains<bool> ? "1" : "0", TL::contains<std::string> ? "1" : "0", TL::contains<double> ? "1" : "0"}))
    .j("not", jlist({TL::contains<float> ? "1" : "0", TL::contains<int &> ? "1" : "0", TL::contains<int const> ? "1" : "0", swoc::meta::is_any_of_v<int> ? "1" : "0"}))
    .j("hom", jlist({swoc::meta::is_homogenous<int, int, int>::value ? "1" : "0", swoc::meta::is_homogenous<int>::value ? "1" : "0"}))
    .j("het", jlist({swoc::meta::is_homogenous<int, int, bool>::value ? "1" : "0", swoc::meta::is_homogenous<int, bool, int>::value ? "1" : "0", swoc::meta::is_homogenous<int, bool>::value ? "1" : "0"}));
  ep.emit(ev);
}

// --- FNV-1a
static std::string limbs(uint64_t v, int n) { std::vector<int> b; for (int i = 0; i < n; ++i) b.push_back((v >> (8 * i)) & 0xff); return jints(b); }
template <typename H, int W> static void fnv(Ep &ep) {
  Rng &r = ep.rng;
  H h[2];
  auto text = [&] { std::string t; int n = r.chance(1, 5) ? 0 : r.range(0, 12); for (int i = 0; i < n; ++i) t += char(r.chance(1, 2) ? r.range('A', 'z') : r.range(0, 255)); return t; };
  Ev e0("hinit"); e0.i("w", W); ep.emit(e0);
  for (int k = 0; k < 25; ++k) {
    int x = r.range(0, 1); std::string t = text(); ep.pending("fnv");
    auto low = [](char c) -> char { return c >= 'A' && c <= 'Z' ? c + 32 : c; };
    switch (r.range(0, 7)) {
    case 0: { h[x].clear(); Ev ev("hclear"); ev.i("x", x).j("o", limbs(h[x].get(), W)); ep.emit(ev); } break;
    case 1: { auto v = h[x].hash_immediate(t); Ev ev("hupd"); ev.i("x", x).t("t", t).j("o", limbs(h[x].get(), W)).b("r", v == h[x].get()); ep.emit(ev); } break;
    case 2: { auto *v = &h[x].update(swoc::transform_view_of(low, std::string_view(t))); Ev ev("hlow"); ev.i("x", x).t("t", t).j("o", limbs(h[x].get(), W)).b("r", v == &h[x]); ep.emit(ev); } break;
    case 3: { auto v = h[x].hash_immediate(swoc::transform_view_of(low, std::string_view(t))); Ev ev("hlow"); ev.i("x", x).t("t", t).j("o", limbs(h[x].get(), W)).b("r", v == h[x].get()); ep.emit(ev); } break;
    case 4: { h[x] = h[1 - x]; Ev ev("hcopy"); ev.i("x", x).j("o", limbs(h[x].get(), W)); ep.emit(ev); } break;
    case 5: { auto *v = &h[x].final(); Ev ev("hupd"); ev.i("x", x).t("t", "").j("o", limbs(h[x].get(), W)).b("r", v == &h[x]); ep.emit(ev); } break;
    default: { auto *v = &h[x].update(t); Ev ev("hupd"); ev.i("x", x).t("t", t).j("o", limbs(h[x].get(), W)).b("r", v == &h[x]); ep.emit(ev); } break;
    }
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [](Ep &ep) {
    if (ep.only == "tree") { if (ep.id % 8 == 7) cost(ep); else { Tree t(ep); t.run(); } }
    else if (ep.only == "let") { if (ep.id % 10 == 9) choose(ep); else { Lets l(ep); l.run(); } }
    else if (ep.only == "fnv") { if (ep.id % 2) fnv<swoc::Hash32FNV1a, 4>(ep); else fnv<swoc::Hash64FNV1a, 8>(ep); }
  }, 400, 3200);
}
