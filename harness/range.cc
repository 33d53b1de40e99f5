// Conformance driver for swoc::DiscreteRange: every pair of intervals (empty ones included) of a small metric that
// wraps, and pairs over built in integers around their limits.
#include "vt.h"
#include "swoc/DiscreteRange.h"
#include <limits>
using namespace vt;
template <int N> struct Met {
  int v = 0;
  Met() = default;
  explicit Met(int x) : v(x) {}
  Met &operator++() { v = (v + 1) % N; return *this; }
  Met &operator--() { v = (v + N - 1) % N; return *this; }
  bool operator==(Met const &t) const { return v == t.v; }
  bool operator!=(Met const &t) const { return v != t.v; }
  bool operator<(Met const &t) const { return v < t.v; }
  bool operator>(Met const &t) const { return v > t.v; }
  bool operator<=(Met const &t) const { return v <= t.v; }
  bool operator>=(Met const &t) const { return v >= t.v; }
  static Met const MIN, MAX;
};
template <int N> Met<N> const Met<N>::MIN{0};
template <int N> Met<N> const Met<N>::MAX{N - 1};

// Values are recorded relative to a window so that extremes of wide types fit.
template <typename M> struct Win;
template <int N> struct Win<Met<N>> {
  static constexpr int TOP = N - 1;
  static Met<N> to(int x) { return Met<N>(x); }
  static int from(Met<N> m) { return m.v; }
};
template <> struct Win<uint8_t> { static constexpr int TOP = 255; static uint8_t to(int x) { return x; } static int from(uint8_t m) { return m; } };

template <typename M> void unary(Ep &ep, int a0, int a1) {
  using R = swoc::DiscreteRange<M>;
  using W = Win<M>;
  R r(W::to(a0), W::to(a1));
  if (a0 == a1 && ep.rng.chance(1, 2)) r = R(W::to(a0));
  if (a0 == a1 && ep.rng.chance(1, 2)) { r = R(W::to(W::TOP), W::to(0)); r.assign(W::to(a0)); }
  if (ep.rng.chance(1, 4)) { R x(W::to(0), W::to(W::TOP)); if (ep.rng.chance(1, 2)) x.assign_min(r.min()).assign_max(r.max()); else x.assign(r.min(), r.max()); r = x; }
  ep.pending("unary");
  Ev ev("unary");
  ev.v("a", std::vector<int>{a0, a1}).i("top", W::TOP).i("empty", r.empty()).i("not", !r).i("bool", bool(r)).i("single", r.is_singleton());
  ev.i("maximal", r.is_maximal());
  std::vector<int> has;
  for (int x = 0; x <= W::TOP; ++x) has.push_back(r.contains(W::to(x)));
  ev.v("has", has);
  R c(r), k(r);
  c.clear();
  k.clip_max();
  ev.v("cleared", std::vector<int>{W::from(c.min()), W::from(c.max())}).v("clipped", std::vector<int>{W::from(k.min()), W::from(k.max())});
  ep.emit(ev);
}
template <typename M> void binary(Ep &ep, int a0, int a1, int b0, int b1) {
  using R = swoc::DiscreteRange<M>;
  using W = Win<M>;
  static char const *const REL[]  = {"none", "equal", "subset", "superset", "overlap", "adjacent"};
  static char const *const EDGE[] = {"none", "gap", "adj", "ovlp"};
  R a(W::to(a0), W::to(a1)), b;
  b.assign(W::to(b0), W::to(b1));
  auto pr = [](R const &r) { return std::vector<int>{W::from(r.min()), W::from(r.max())}; };
  ep.pending("binary");
  Ev ev("binary");
  ev.v("a", pr(a)).v("b", pr(b)).i("top", W::TOP);
  ev.i("eq", a == b).i("ne", a != b).i("meets", a.has_intersection_with(b)).i("caret", a ^ b);
  ev.v("isect", pr(a.intersection(b))).v("hull", pr(a.hull(b)));
  R x(a), y(a);
  x &= b;
  y |= b;
  ev.v("andeq", pr(x)).v("oreq", pr(y)).i("lex", typename R::lexicographic_order()(a, b));
  ev.i("sup", a.is_superset_of(b)).i("sub", a.is_subset_of(b)).i("ssup", a.is_strict_superset_of(b)).i("ssub", a.is_strict_subset_of(b));
  ev.i("lt", a < b).i("le", a <= b).i("gt", a > b).i("ge", a >= b);
  ev.i("adj", a.is_adjacent_to(b)).i("ladj", a.is_left_adjacent_to(b)).i("union", a.has_union(b));
  ev.s("rel", REL[static_cast<int>(a.relationship(b)) % 6]).s("edge", EDGE[static_cast<int>(a.left_edge_relationship(b)) % 4]);
  ep.emit(ev);
}
int main(int argc, char **argv) {
  return vt::main(argc, argv, [&](Ep &ep) {
    if (ep.id < 36) { // all pairs over six points
      int a0 = ep.id / 6, a1 = ep.id % 6;
      unary<Met<6>>(ep, a0, a1);
      for (int b0 = 0; b0 < 6; ++b0) for (int b1 = 0; b1 < 6; ++b1) binary<Met<6>>(ep, a0, a1, b0, b1);
    } else {
      auto v = [&]() -> int { int c = ep.rng.range(0, 5); return c == 0 ? 0 : c == 1 ? 255 : c == 2 ? ep.rng.range(250, 255) : c == 3 ? ep.rng.range(0, 5) : ep.rng.range(0, 255); };
      for (int k = 0; k < 60; ++k) {
        int a0 = v(), a1 = v(), b0 = v(), b1 = v();
        if (ep.rng.chance(3, 4)) { if (a0 > a1) std::swap(a0, a1); if (b0 > b1) std::swap(b0, b1); }
        if (ep.rng.chance(1, 4) && a1 < 255) { b0 = a1 + 1; if (b1 < b0) b1 = 255; }
        if (k % 10 == 0) unary<uint8_t>(ep, a0, a1);
        binary<uint8_t>(ep, a0, a1, b0, b1);
      }
    }
  }, 36 + 60, 36 + 800);
}
