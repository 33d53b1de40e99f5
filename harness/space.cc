// Conformance driver for swoc::DiscreteSpace.
#include "vt.h"
#include "swoc/DiscreteRange.h"
#include <limits>
using namespace vt;

// A metric with a small number of values which wraps at both ends, so that every boundary case is reachable.
template <int N> struct Met {
  int v = 0;
  Met() = default;
  explicit Met(int x) : v(x) {}
  Met &operator++() { v = (v + 1) % N; return *this; }
  Met &operator--() { v = (v + N - 1) % N; return *this; }
  bool operator==(Met const &t) const { return v == t.v; }
  bool operator!=(Met const &t) const { return v != t.v; }
  bool operator<(Met const &t) const { return v < t.v; }
  bool operator>(Met const &t) const { return v > t.v; }
  bool operator<=(Met const &t) const { return v <= t.v; }
  bool operator>=(Met const &t) const { return v >= t.v; }
  static Met const MIN, MAX;
};
template <int N> Met<N> const Met<N>::MIN{0};
template <int N> Met<N> const Met<N>::MAX{N - 1};
using M6   = Met<6>;
using M64  = Met<64>;
using M256 = Met<256>;
template <int N> int toi(Met<N> const &m) { return m.v; }

struct Pay { // a class payload, so copies and comparisons are real.
  int v = 0;
  Pay() = default;
  Pay(int x) : v(x) {}
  bool operator==(Pay const &t) const { return v == t.v; }
  bool operator!=(Pay const &t) const { return v != t.v; }
};

template <typename M> struct Driver {
  using Space = swoc::DiscreteSpace<M, Pay>;
  using Range = swoc::DiscreteRange<M>;
  Space space;
  Ep &ep;
  bool canon = true;
  explicit Driver(Ep &e) : ep(e) {}

  template <typename I> static std::string seg(I const &it) {
    auto &n = *it;
    return "[" + std::to_string(toi(n.min())) + "," + std::to_string(toi(n.max())) + "," + std::to_string(n.payload().v) + "]";
  }
  std::string segs() {
    std::vector<std::string> r;
    int guard = 0;
    for (auto it = space.begin(); it != space.end() && guard < 2000; ++it, ++guard) r.push_back(seg(it));
    return jlist(r);
  }
  void obs(Ev &ev) {
    ev.j("segs", segs()).i("n", space.count()).b("empty", space.empty()).b("canon", canon);
    ep.emit(ev);
  }
  void mark(int a, int b, int p) { ep.pending("mark"); space.mark(Range(M(a), M(b)), Pay(p)); Ev ev("mark"); ev.i("a", a).i("b", b).i("p", p); obs(ev); }
  void fill(int a, int b, int p) { ep.pending("fill"); space.fill(Range(M(a), M(b)), Pay(p)); Ev ev("fill"); ev.i("a", a).i("b", b).i("p", p); obs(ev); }
  void erase(int a, int b) { ep.pending("erase"); space.erase(Range(M(a), M(b))); Ev ev("erase"); ev.i("a", a).i("b", b); obs(ev); }
  void clear() { ep.pending("clear"); space.clear(); canon = true; Ev ev("clear"); obs(ev); }
  void blend(int a, int b, std::string const &kind, int c) {
    ep.pending("blend " + kind);
    canon = false;
    Pay color(c);
    auto fn = [&](Pay &v, Pay const &col) -> bool {
      int o = v.v;
      if (kind == "set") { v.v = col.v; return true; }
      if (kind == "add") { v.v = (o + col.v) % 4; return true; }
      if (kind == "keep") { if (o == 0) v.v = col.v; return true; }
      if (kind == "sub") { v.v = (o + col.v) % 3; return v.v != 0; }
      if (kind == "only") { v.v = (o + col.v) % 4; return o != 0; }
      return false;
    };
    space.blend(Range(M(a), M(b)), color, fn);
    Ev ev("blend");
    ev.i("a", a).i("b", b).s("kind", kind).i("c", c);
    obs(ev);
  }
  std::string one(typename Space::iterator it) { return it == space.end() ? "[]" : "[" + seg(it) + "]"; }
  void find(int m) {
    ep.pending("find");
    Ev ev("find");
    auto it = space.find(M(m));
    ev.i("m", m).j("r", one(it));
    ep.emit(ev);
  }
  void lower(int m) { ep.pending("lower"); Ev ev("lower"); ev.i("m", m).j("r", one(space.lower_bound(M(m)))); ep.emit(ev); }
  void upper(int m) { ep.pending("upper"); Ev ev("upper"); ev.i("m", m).j("r", one(space.upper_bound(M(m)))); ep.emit(ev); }
  void isect(int a, int b) {
    ep.pending("isect");
    auto [f, l] = space.intersection(Range(M(a), M(b)));
    std::vector<std::string> r;
    int guard = 0;
    for (auto it = f; it != l && guard < 2000; ++it, ++guard) r.push_back(seg(it));
    Ev ev("isect");
    ev.i("a", a).i("b", b).j("r", jlist(r));
    ep.emit(ev);
  }
};

static const std::vector<std::string> KINDS{"set", "add", "keep", "sub", "only", "wipe"};

// One implementation step for (a sample of) every transition of the abstract state graph over six points.
static void transitions(Ep &ep, long idx, long nslices) {
  ep.emit(Ev("metric").i("size", 6));
  static const int V[3] = {-1, 1, 2};
  // The slice is a residue class of the state number.
  for (long st = idx; st < 729; st += nslices) {
    int cfg[6];
    long x = st;
    for (int i = 0; i < 6; ++i) { cfg[i] = V[x % 3]; x /= 3; }
    std::vector<std::vector<int>> runs;
    for (int i = 0; i < 6;) {
      int j = i;
      while (j + 1 < 6 && cfg[j + 1] == cfg[i]) ++j;
      if (cfg[i] >= 0) runs.push_back({i, j, cfg[i]});
      i = j + 1;
    }
    std::string want = "[";
    for (size_t i = 0; i < runs.size(); ++i) want += (i ? "," : "") + jints(runs[i]);
    want += "]";
    auto order = runs;
    for (int a = 0; a < 6; ++a)
      for (int b = a; b < 6; ++b)
        for (int o = 0; o < 16; ++o) {
          if (!ep.thorough && ep.rng.range(0, 7) != 0) continue;
          Driver<M6> d(ep);
          ep.pending("load");
          for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[ep.rng.range(0, i - 1)]);
          for (auto &r : order) d.space.mark(typename Driver<M6>::Range(M6(r[0]), M6(r[1])), Pay(r[2]));
          Ev ev("load");
          ev.j("want", want);
          d.obs(ev);
          switch (o) {
          case 0: d.mark(a, b, 1); break;
          case 1: d.mark(a, b, 2); break;
          case 2: d.fill(a, b, 1); break;
          case 3: d.fill(a, b, 2); break;
          case 4: case 5: d.erase(a, b); break;
          case 6: d.blend(a, b, "set", 1); break;
          case 7: d.blend(a, b, "add", 1); break;
          case 8: d.blend(a, b, "keep", 2); break;
          case 9: d.blend(a, b, "sub", 1); break;
          case 10: d.blend(a, b, "only", 1); break;
          case 11: d.blend(a, b, "wipe", 1); break;
          case 12: d.blend(a, b, "add", 2); break;
          case 13: d.blend(a, b, "sub", 2); break;
          case 14: d.isect(a, b); break;
          default: d.find(a); d.lower(a); d.upper(b); break;
          }
        }
  }
}

template <typename M> static void randomized(Ep &ep, int hi, int steps, bool blends) {
  ep.emit(Ev("metric").i("size", hi + 1));
  auto d     = std::make_unique<Driver<M>>(ep);
  int style  = ep.rng.range(0, 4); // 0: small ranges, 1: mixed, 2: sequential, 3: singletons heavy, 4: pay heavy
  int npay   = ep.rng.range(1, 3);
  int cursor = 0;
  for (int k = 0; k < steps; ++k) {
    int a, b;
    int r = ep.rng.range(0, 9);
    if (style == 2 && r < 7) {
      a      = cursor;
      b      = std::min(hi, a + static_cast<int>(ep.rng.range(0, 2)));
      cursor = b + ep.rng.range(1, 3);
      if (cursor > hi) cursor = 0;
    } else {
      a     = ep.rng.range(0, hi);
      int w = style == 3 ? 0 : (r < 7 ? ep.rng.range(0, std::max(1, hi / 16)) : ep.rng.range(0, hi));
      b     = std::min(hi, a + w);
      if (r == 9) { a = 0; }
      if (r == 8) { b = hi; }
    }
    int p = ep.rng.range(style == 4 ? 1 : 0, style == 4 ? 12 : npay);
    int o = ep.rng.range(0, 99);
    if (o < 32) d->mark(a, b, p);
    else if (o < 50) d->fill(a, b, p);
    else if (o < 62) d->erase(a, b);
    else if (o < 78) { if (blends) d->blend(a, b, ep.rng.pick(KINDS), ep.rng.range(0, 3)); else d->mark(a, b, p); }
    else if (o < 84) d->find(a);
    else if (o < 88) d->lower(a);
    else if (o < 92) d->upper(a);
    else if (o < 99) d->isect(a, b);
    else if (ep.rng.chance(1, 2)) d->clear();
    else d->find(b);
  }
  // Final sweep of lookups.
  for (int m = 0; m <= hi; m += (hi > 20 ? 3 : 1)) d->find(m);
  ep.pending("destroy");
  d.reset();
}

int main(int argc, char **argv) {
  long nslice = 40;
  return vt::main(argc, argv, [&](Ep &ep) {
    if (ep.id < nslice) transitions(ep, ep.id, nslice);
    else {
      int c = ep.id % 4;
      bool blends = ep.id % 3 != 0;
      if (c == 0) randomized<M6>(ep, 5, 60, blends);
      else if (c == 1) randomized<M256>(ep, 255, 250, blends);
      else randomized<M64>(ep, 63, ep.thorough ? 300 : 100, blends);
    }
  }, nslice + 160, nslice + 1600);
}
