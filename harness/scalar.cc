// Conformance driver for swoc::Scalar.
#include "vt.h"
#include "swoc/Scalar.h"
#include <limits>
#include <sstream>
#include <tuple>
using namespace vt;
using swoc::Scalar;
using swoc::round_down;
using swoc::round_up;
struct Bytes { static constexpr char const *label = " bytes"; };
struct NoLabel;

template <typename T, bool SIGNED> struct Drive {
  template <typename S, typename U> using Cnt = std::conditional_t<SIGNED, S, U>;
  using I = Cnt<int, unsigned>;
  using L = Cnt<long, uint64_t>;
  using H = Cnt<short, uint16_t>;
  using Regs = std::tuple<Scalar<10, I, T>, Scalar<15, I, T>, Scalar<30, I, T>, Scalar<4, H, T>, Scalar<1, L, T>, Scalar<10, L, T>>;
  static constexpr int N = std::tuple_size_v<Regs>;
  Ep &ep;
  Rng &r;
  Regs regs;
  Drive(Ep &e) : ep(e), r(e.rng) {}

  template <int K = 0, typename F> void with(int k, F &&f) {
    if constexpr (K < N) {
      if (k == K) f(std::get<K>(regs));
      else with<K + 1>(k, f);
    }
  }
  long value(int k) { long v = 0; with(k, [&](auto &a) { v = long(a.value()); }); return v; }
  long count(int k) { long v = 0; with(k, [&](auto &a) { v = long(a.count()); }); return v; }
  long scale(int k) { long v = 0; with(k, [&](auto &a) { v = a.scale(); }); return v; }
  /// Can the count @a n be used for register @a k?
  bool fits(int k, long n) {
    long lim = k == 3 ? 7000 : 10000000;
    return (SIGNED ? n >= -lim : n >= 0) && n <= lim;
  }
  void put(Ev ev) {
    std::vector<long> c, v;
    for (int k = 0; k < N; ++k) with(k, [&](auto &a) { c.push_back(long(a.count())); v.push_back(r.chance(1, 2) ? long(a.value()) : long(static_cast<typename std::decay_t<decltype(a)>::Counter>(a))); });
    ev.v("c", c).v("v", v);
    ep.emit(ev);
  }
  long some_n() { return r.chance(1, 6) ? r.range(SIGNED ? -20000 : 0, 20000) : r.range(SIGNED ? -50 : 0, 50); }

  // assign() takes a rounded scalar of the same type.
  template <intmax_t K, typename C, typename G> static bool asg(Scalar<K, C, G> &a, swoc::detail::scalar_round_up_t<K, C, G> v, int) { a.assign(v); return true; }
  template <intmax_t K, typename C, typename G> static bool asg(Scalar<K, C, G> &a, swoc::detail::scalar_round_down_t<K, C, G> v, int) { a.assign(v); return true; }
  template <intmax_t K, typename C, typename G, typename I> static bool asg(Scalar<K, C, G> &a, swoc::detail::scalar_unit_round_up_t<I> v, int) { a.assign(v); return true; }
  template <intmax_t K, typename C, typename G, typename I> static bool asg(Scalar<K, C, G> &a, swoc::detail::scalar_unit_round_down_t<I> v, int) { a.assign(v); return true; }
  template <typename A, typename S> static bool asg(A &, S const &, long) { return false; }
  template <typename A, typename S> static bool assigned(A &a, S const &v) { return asg(a, v, 0); }

  // Use @a src as target of f(a, wrapped source); @a j is the JSON for the source.
  template <typename F> void units(F &&f) {
    bool up = r.chance(1, 2);
    long n = some_n();
    std::string j = Rec().s("k", "unit").i("n", n).s("dir", up ? "up" : "down").str();
    auto go = [&](auto x) { if (up) f(round_up(x), j); else f(round_down(x), j); };
    switch (r.range(0, 3)) {
    case 0: go(int(n)); break;
    case 1: go(long(n)); break;
    case 2: go(short(n)); break;
    default: if (n >= 0) go(size_t(n)); else go(intmax_t(n)); break;
    }
  }
  template <typename A, typename F> void wrapped(A &, int ai, std::string const &kind, bool allow_direct, F &&f) {
    bool up = r.chance(1, 2);
    if (kind == "unit") units(f);
    else {
      int k = r.range(0, N - 1);
      if (k == ai && !r.chance(1, 3)) k = (k + 1) % N;
      with(k, [&](auto &b) {
        using B = std::decay_t<decltype(b)>;
        constexpr bool divides = B::SCALE % A::SCALE == 0;
        if (divides && allow_direct && r.chance(1, 2)) {
          if constexpr (divides) f(b, Rec().s("k", "reg").i("n", k + 1).str());
        } else {
          std::string j = Rec().s("k", "rreg").i("n", k + 1).s("dir", up ? "up" : "down").str();
          if (up) f(round_up(b), j); else f(round_down(b), j);
        }
      });
    }
  }
  static long fl(long v, long n) { return v >= 0 ? v / n : -((-v + n - 1) / n); }

  void run() {
    { std::vector<long> s; for (int k = 0; k < N; ++k) s.push_back(scale(k)); std::string lab; if constexpr (std::is_same_v<T, Bytes>) lab = Bytes::label; Ev ev("start"); ev.v("s", s).t("label", lab); ep.emit(ev); }
    int steps = ep.thorough ? 120 : 50;
    for (int it = 0; it < steps; ++it) {
      int i = r.range(0, N - 1);
      with(i, [&](auto &a) { op(a, i); });
    }
  }
  template <typename A> void op(A &a, int i) {
    using C = typename A::Counter;
    int what = r.range(0, 19);
    ep.pending("scalar op " + std::to_string(what));
    switch (what) {
    case 0: case 1: { // set the count
      long n = r.chance(1, 5) ? r.range(SIGNED ? -3000 : 0, 3000) : r.range(SIGNED ? -60 : 0, 60);
      switch (r.range(0, 2)) {
      case 0: a.assign(C(n)); break;
      case 1: a = A(C(n)); break;
      default: a = a(C(n)); break;
      }
      Ev ev("assign"); ev.i("i", i + 1).j("src", Rec().s("k", "count").i("n", n).str()); put(ev);
      break;
    }
    case 2: case 3: case 4: case 5: { // assignment by value
      long bound = 0; for (int k = 0; k < N; ++k) bound = std::max(bound, std::abs(value(k)));
      if (!fits(i, bound / scale(i) + 1) || !fits(i, 20001 / scale(i) + 1)) return;
      wrapped(a, i, r.chance(1, 3) ? "unit" : "reg", true, [&](auto const &src, std::string const &j) {
        using S = std::decay_t<decltype(src)>;
        switch (r.range(0, 3)) {
        case 0: if (r.chance(1, 2) || !assigned(a, src)) a = src; break;
        case 1: { A x(src); a = x; break; }
        case 2: { A x = src; A y; y = x; a.assign(y); break; }
        default:
          if constexpr (std::is_convertible_v<S, A> && !std::is_same_v<S, A>) a = A{src};
          else a = src;
          break;
        }
        Ev ev("assign"); ev.i("i", i + 1).j("src", j); put(ev);
      });
      break;
    }
    case 6: case 7: { // += -=
      bool sub = r.chance(1, 2);
      A save(a);
      long bound = 0; for (int k = 0; k < N; ++k) bound = std::max(bound, std::abs(value(k)));
      if (!fits(i, bound / scale(i) + 1 + std::abs(count(i)) + 20001 / scale(i) + 1)) return;
      if (!SIGNED && sub && (bound > value(i) || count(i) <= 20001 / scale(i) + 1)) return;
      wrapped(a, i, r.chance(1, 3) ? "unit" : "reg", true, [&](auto const &src, std::string const &j) {
        if (sub) { auto &x = (a -= src); if (&x != &a) throw std::logic_error("result of -="); }
        else { auto &x = (a += src); if (&x != &a) throw std::logic_error("result of +="); }
        Ev ev(sub ? "sub" : "add"); ev.i("i", i + 1).j("src", j); put(ev);
      });
      break;
    }
    case 8: { // * /
      long n = r.range(SIGNED ? -5 : 0, 5);
      bool mul = r.chance(1, 2);
      if (mul ? !fits(i, count(i) * n) : n == 0) return;
      if (mul) { auto &x = (a *= C(n)); if (&x != &a) throw std::logic_error("result of *="); }
      else { auto &x = (a /= C(n)); if (&x != &a) throw std::logic_error("result of /="); }
      Ev ev(mul ? "mul" : "div"); ev.i("i", i + 1).i("n", n); put(ev);
      break;
    }
    case 9: { // ++ -- inc dec
      int n = r.range(0, 5);
      long m = n < 4 ? 1 : r.range(SIGNED ? -9 : 0, 9);
      long d = n == 2 || n == 3 || n == 5 ? -m : m;
      if (!fits(i, count(i) + d)) return;
      long res = 0;
      switch (n) {
      case 0: { auto &x = ++a; if (&x != &a) throw std::logic_error("result of ++"); res = long(x.count()); break; }
      case 1: { A x = a++; res = long(x.count()); break; }
      case 2: { auto &x = --a; if (&x != &a) throw std::logic_error("result of --"); res = long(x.count()); break; }
      case 3: { A x = a--; res = long(x.count()); break; }
      case 4: res = long(a.inc(C(m)).count()); break;
      default: res = long(a.dec(C(m)).count()); break;
      }
      Ev ev("step"); ev.i("i", i + 1).i("n", d).b("post", n == 1 || n == 3).i("r", res); put(ev);
      break;
    }
    case 10: { // a (+-) unit ; a (+-) round(same type)
      bool neg = r.chance(1, 2), left = r.chance(1, 2);
      if (!fits(i, std::abs(count(i)) + 20001 / scale(i) + 1)) return;
      if (!SIGNED && neg) return;
      if (r.chance(2, 3)) {
        units([&](auto const &src, std::string const &j) {
          A x = neg ? (left ? src - a : a - src) : (left ? src + a : a + src);
          Ev ev("binr"); ev.i("i", i + 1).b("neg", neg).b("left", left).j("src", j).i("r", long(x.count())).i("scale", x.scale()); put(ev);
        });
      } else {
        A b(a);
        bool up = r.chance(1, 2);
        A x = up ? (neg ? (left ? round_up(b) - a : a - round_up(b)) : (left ? round_up(b) + a : a + round_up(b)))
                 : (neg ? (left ? round_down(b) - a : a - round_down(b)) : (left ? round_down(b) + a : a + round_down(b)));
        Ev ev("binr"); ev.i("i", i + 1).b("neg", neg).b("left", left).j("src", Rec().s("k", "rreg").i("n", i + 1).s("dir", up ? "up" : "down").str()).i("r", long(x.count())).i("scale", x.scale()); put(ev);
      }
      break;
    }
    case 11: case 12: { // a (+-) b
      int k = r.range(0, N - 1);
      bool neg = r.chance(1, 2);
      if (!fits(3, std::abs(count(i))+std::abs(count(k))) || !fits(0, std::abs(value(i)) + std::abs(value(k)))) return;
      if (!SIGNED && neg && value(k) > value(i)) return;
      with(k, [&](auto &b) {
        auto emit = [&](auto const &x) { Ev ev("bin"); ev.i("i", i + 1).i("j", k + 1).b("neg", neg).i("r", long(x.count())).i("v1", long(x.value())).i("scale", x.scale()); put(ev); };
        if (neg) emit(a - b); else emit(a + b);
      });
      break;
    }
    case 13: { // same scale results
      long n = r.range(SIGNED ? -6 : 0, 6);
      long res = 0, sc = 0; char const *f = "";
      auto got = [&](auto const &x) { res = long(x.count()); sc = x.scale(); };
      switch (r.range(0, 6)) {
      case 0: if (!fits(i, count(i) * n)) return; f = "mul"; got(a * C(n)); break;
      case 1: if (!fits(i, count(i) * n)) return; f = "mul"; got(C(n) * a); break;
      case 2: if (!fits(i, count(i) * n)) return; f = "mul"; if (r.chance(1, 2)) got(a * int(n)); else got(int(n) * a); break;
      case 3: if (n == 0) return; f = "div"; if (r.chance(1, 2)) got(a / C(n)); else got(a / int(n)); break;
      case 4: if (!fits(i, count(i) + n)) return; f = "plus"; got(a.plus(C(n))); break;
      case 5: if (!fits(i, count(i) - n)) return; f = "minus"; got(a.minus(C(n))); break;
      default: f = "call"; got(a(C(n))); break;
      }
      Ev ev("same"); ev.i("i", i + 1).s("f", f).i("n", n).i("r", res).i("scale", sc); put(ev);
      break;
    }
    case 14: { // a / b
      int k = r.range(0, N - 1);
      if (!value(k)) return;
      with(k, [&](auto &b) { auto q = a / b; Ev ev("quot"); ev.i("i", i + 1).i("j", k + 1).i("r", long(q)); put(ev); });
      break;
    }
    case 15: case 16: { // compare
      int k = r.range(0, N - 1);
      with(k, [&](auto &b) {
        if (r.chance(1, 2)) { // make them close
          long n = fl(value(i), scale(k)) + r.range(-1, 1);
          if (fits(k, n)) { b.assign(typename std::decay_t<decltype(b)>::Counter(n)); Ev ev("assign"); ev.i("i", k + 1).j("src", Rec().s("k", "count").i("n", n).str()); put(ev); }
        }
        bool res[] = {a < b, a <= b, a == b, a >= b, a > b, a != b};
        std::vector<std::string> v; for (bool x : res) v.push_back(x ? "true" : "false");
        Ev ev("cmp"); ev.i("i", i + 1).i("j", k + 1).j("r", jlist(v)); put(ev);
      });
      break;
    }
    case 17: {
      std::ostringstream os; os << a;
      std::string s = os.str();
      size_t p = s.find_first_not_of("-0123456789");
      std::string lab = p == s.npos ? "" : s.substr(p);
      Ev ev("print"); ev.i("i", i + 1).i("r", s.empty() ? 0 : atol(s.c_str())).t("label", lab); put(ev);
      break;
    }
    default: { // the full range of the counters
      big<3, 7>(); big<10, 15>(); big<15, 10>(); big<512, 1>(); big<1, 512>(); big<1024, 24>();
    }
    }
  }
  // Rounding of arbitrary 64 bit values from scale S to D, when the result fits.
  template <intmax_t S, intmax_t D> void big() {
    uint64_t u = r.next() >> r.range(0, 63);
    bool neg = SIGNED && r.chance(1, 2);
    if (SIGNED) u >>= 1;
    __int128 v = __int128(u) * S;
    __int128 lim = SIGNED ? std::numeric_limits<int64_t>::max() : std::numeric_limits<uint64_t>::max();
    if (v / D + 1 > lim) return;
    L n = neg ? L(-int64_t(u)) : L(u);
    bool up = r.chance(1, 2);
    Scalar<S, L, T> x(n);
    Scalar<D, L, T> y;
    if constexpr (S == 1) { if (r.chance(1, 2)) { if (up) y = round_up(n); else y = round_down(n); } else { if (up) y = round_up(x); else y = round_down(x); } }
    else { if (up) y = round_up(x); else y = round_down(x); }
    auto dec = [](L c, bool &ng) { std::string s = std::to_string(c); ng = s[0] == '-'; if (ng) s.erase(0, 1); for (char &ch : s) ch -= '0'; return s; };
    bool a, b;
    std::string ns = dec(n, a), rs = dec(y.count(), b);
    Ev ev("big"); ev.i("s", S).i("d", D).s("dir", up ? "up" : "down").b("neg", a).t("n", ns).b("rneg", b).t("r", rs); ep.emit(ev);
  }
};
template <intmax_t N, typename C> void free_round(Ep &ep, long n) {
  Ev ev("free"); ev.i("n", n).i("s", N).i("up", long(round_up<N>(C(n)))).i("down", long(round_down<N>(C(n)))); ep.emit(ev);
}
template <typename C> void frees(Ep &ep, long lo) {
  for (int i = 0; i < 6; ++i) { long n = ep.rng.chance(1, 2) ? ep.rng.range(lo ? -120 : 0, 120) : ep.rng.range(lo ? -20000 : 0, 20000);
    free_round<1, C>(ep, n); free_round<3, C>(ep, n); free_round<10, C>(ep, n); free_round<16, C>(ep, n); free_round<100, C>(ep, n); }
}
int main(int argc, char **argv) {
  return vt::main(argc, argv, [](Ep &ep) {
    switch (ep.id % 4) {
    case 0: Drive<swoc::tag::generic, true>(ep).run(); break;
    case 1: Drive<Bytes, true>(ep).run(); break;
    case 2: Drive<NoLabel, false>(ep).run(); break;
    default: frees<int>(ep, 1); frees<long>(ep, 1); frees<short>(ep, 1); frees<unsigned>(ep, 0); frees<uint64_t>(ep, 0); break;
    }
  }, 800, 8000);
}
