// Conformance driver for swoc::IPSpace and swoc::IPRangeSet.
#include "vt.h"
#include "swoc/swoc_ip.h"
#include "swoc/IPRange.h"
#include <array>
using namespace vt;
using swoc::IP4Addr; using swoc::IP6Addr; using swoc::IPAddr; using swoc::IP4Range; using swoc::IP6Range; using swoc::IPRange; using swoc::IPRangeView;

struct U128 { uint64_t h = 0, l = 0; };
static U128 inc(U128 a) { if (++a.l == 0) ++a.h; return a; }
static U128 dec(U128 a) { if (a.l-- == 0) --a.h; return a; }
static U128 add(U128 a, unsigned n) { uint64_t l = a.l + n; if (l < a.l) ++a.h; a.l = l; return a; }
static bool eq(U128 a, U128 b) { return a.h == b.h && a.l == b.l; }

// Built from the raw octets, so the address text / arithmetic code of the library is not involved.
static IP6Addr mk6(U128 a) {
  in6_addr x;
  for (int i = 0; i < 8; ++i) { x.s6_addr[i] = a.h >> (8 * (7 - i)); x.s6_addr[8 + i] = a.l >> (8 * (7 - i)); }
  return IP6Addr(x);
}
static U128 raw6(IP6Addr const &a) {
  in6_addr x;
  a.network_order(x);
  U128 r;
  for (int i = 0; i < 8; ++i) { r.h = (r.h << 8) | x.s6_addr[i]; r.l = (r.l << 8) | x.s6_addr[8 + i]; }
  return r;
}
static IP4Addr mk4(uint32_t a) { return IP4Addr(static_cast<in_addr_t>(a)); }
static U128 raw4(IP4Addr const &a) { return U128{0, a.host_order()}; }

// The address line is compressed: a few windows of addresses map one to one to integers, and one integer stands for
// all of the addresses between two windows.
struct Line {
  struct Win { U128 lo; int n; };
  std::vector<Win> w;
  int size() const { int r = 0; for (auto &x : w) r += x.n; return r + static_cast<int>(w.size()) - 1; }
  // low address of point p, high address of point p.
  U128 low(int p) const {
    for (size_t i = 0; i < w.size(); ++i) {
      if (p < w[i].n) return add(w[i].lo, p);
      p -= w[i].n;
      if (p == 0) return add(w[i].lo, w[i].n);
      --p;
    }
    return {};
  }
  U128 high(int p) const {
    for (size_t i = 0; i < w.size(); ++i) {
      if (p < w[i].n) return add(w[i].lo, p);
      p -= w[i].n;
      if (p == 0) return dec(w[i + 1].lo);
      --p;
    }
    return {};
  }
  int from(U128 a, bool max) const {
    for (int p = 0; p < size(); ++p) if (eq(a, max ? high(p) : low(p))) return p;
    return -9;
  }
};

static Line line4(int n) { return Line{{{{0, 0}, n}, {{0, 0x0a0000fe}, n}, {{0, 0x80000000u - n / 2}, n}, {{0, 0xffffffffu - n + 1}, n}}}; }
static Line line6(int n) {
  uint64_t M = ~0ull;
  return Line{{{{0, 0}, n}, {{0, M - n / 2 + 1}, n}, {{0x20010db800000000ull, M - 1}, n}, {{0x8000000000000000ull - 1, M - n / 2 + 1}, n}, {{M, M - n + 1}, n}}};
}

struct Pay {
  int v = 0;
  Pay() = default;
  Pay(int x) : v(x) {}
  bool operator==(Pay const &t) const { return v == t.v; }
  bool operator!=(Pay const &t) const { return v != t.v; }
};

struct Ctx {
  Ep &ep;
  Line l4, l6;
  std::string rng(IPRangeView const &v) {
    if (v.is_ip4()) return "4," + std::to_string(l4.from(raw4(v.ip4().min()), false)) + "," + std::to_string(l4.from(raw4(v.ip4().max()), true));
    if (v.is_ip6()) return "6," + std::to_string(l6.from(raw6(v.ip6().min()), false)) + "," + std::to_string(l6.from(raw6(v.ip6().max()), true));
    return "0,-1,-1";
  }
  IPRange range(int fam, int a, int b) {
    if (fam == 4) return IPRange(mk4(l4.low(a).l), mk4(l4.high(b).l));
    return IPRange(mk6(l6.low(a)), mk6(l6.high(b)));
  }
  U128 some(int fam, int m) { // an address of the point: either edge.
    Line &l = fam == 4 ? l4 : l6;
    switch (ep.rng.range(0, 2)) {
    case 0: return l.low(m);
    case 1: return l.high(m);
    default: { U128 a = l.low(m); return eq(a, l.high(m)) ? a : inc(a); }
    }
  }
};

struct Driver {
  Ctx c;
  Ep &ep;
  using Space = swoc::IPSpace<Pay>;
  std::unique_ptr<Space> sp = std::make_unique<Space>();
  bool canon = true;
  Driver(Ep &e, int n) : c{e, line4(n), line6(n)}, ep(e) {}
  template <typename V> std::string seg(V const &v) {
    auto const &[r, p] = v;
    return "[" + c.rng(r) + "," + std::to_string(p.v) + "]";
  }
  // The value of a segment by any of the accessors.
  template <typename I> std::string at(I const &it) {
    auto one = [&](IPRangeView const &v, int p) { return "[" + c.rng(v) + "," + std::to_string(p) + "]"; };
    IPRange hold;
    switch (ep.rng.range(0, 6)) {
    case 0: return seg(*it);
    case 1: return one(it->range_view(), it->payload().v);
    case 2: hold = it->range(); { IPRangeView v; hold.is_ip4() ? v.assign(hold.ip4()) : v.assign(hold.ip6()); return one(v, it->payload().v); }
    case 3: { auto t = it->tuple(); return one(std::get<0>(t), std::get<1>(t).v); }
    case 4: { IPRangeView v; Pay p; std::tie(v, p) = it->tuple(); return one(v, p.v); }
    case 5: {
      using std::get; using swoc::detail::get;
      return one(get<0>(*it), get<1>(*it).v);
    }
    default: { // as a tuple, the one that is equal.
      IPRange r = it->range();
      int p = it->payload().v;
      bool ok = *it == std::make_tuple(r, Pay(p)) && !(*it == std::make_tuple(r, Pay(p + 1))) && !(*it == std::make_tuple(IPRange(), Pay(p)));
      return ok ? seg(*it) : "[-1,-1,-1,-1]";
    }
    }
  }
  template <typename I> std::string list(I it, I end) {
    std::vector<std::string> r;
    for (int g = 0; it != end && g < 3000; ++it, ++g) r.push_back(at(it));
    return jlist(r);
  }
  // By assignment of iterators.
  template <typename I> std::string list_asg(I it, I end) {
    std::vector<std::string> r;
    I cur;
    cur = it;
    for (int g = 0; !(cur == end) && g < 3000; ++g) {
      I nxt(cur);
      ++nxt;
      r.push_back(at(cur));
      cur = nxt;
      if (ep.rng.chance(1, 4)) { I const &me = cur; cur = me; }
    }
    return jlist(r);
  }
  template <typename I> std::string list_post(I it, I end) {
    std::vector<std::string> r;
    for (int g = 0; it != end && g < 3000; ++g) r.push_back(seg(*it++));
    return jlist(r);
  }
  template <typename I> std::string back(I begin, I it) {
    std::vector<std::string> r;
    for (int g = 0; it != begin && g < 3000; ++g) { --it; r.insert(r.begin(), seg(*it)); }
    return jlist(r);
  }
  template <typename I> std::string back_post(I begin, I it) {
    std::vector<std::string> r;
    bool first = true;
    for (int g = 0; it != begin && g < 3000; ++g) { auto prev = it--; if (!first) r.insert(r.begin(), seg(*prev)); first = false; }
    if (!first) r.insert(r.begin(), seg(*it));
    return jlist(r);
  }
  void obs(Ev &ev) {
    Space const &k = *sp;
    ep.pending("observe");
    ev.b("canon", canon).j("segs", list(sp->begin(), sp->end())).i("n", k.count()).i("n4", k.count_ip4()).i("n6", k.count_ip6()).b("empty", k.empty());
    ev.v("nf", std::vector<long>{(long)k.count(AF_INET), (long)k.count(AF_INET6), (long)k.count(AF_UNIX)});
    ev.b("other", k.begin(AF_UNIX) == k.end(AF_UNIX));
    switch (ep.rng.range(0, 8)) { // another view of the same sequence
    case 0: ev.j("alt", back(sp->begin(), sp->end())); break;
    case 1: ev.j("alt", list_post(k.begin(), k.end())); break;
    case 2: ev.j("alt", back(k.begin(), k.end())); break;
    case 3: ev.j("alt", list(k.begin(), k.end())); break;
    case 4: ev.j("alt", back_post(sp->begin(), sp->end())); break;
    case 5: ev.j("alt", back_post(k.begin(), k.end())); break;
    case 6: ev.j("alt", list_asg(sp->begin(), sp->end())); break;
    case 7: ev.j("alt", list_asg(k.begin(), k.end())); break;
    default: ev.j("alt", list_post(sp->begin(), sp->end())); break;
    }
    switch (ep.rng.range(0, 5)) { // per family views.
    case 0: ev.j("v4", list(sp->begin_ip4(), sp->end_ip4())).j("v6", list(sp->begin_ip6(), sp->end_ip6())); break;
    case 1: ev.j("v4", list(k.begin_ip4(), k.end_ip4())).j("v6", list(k.begin_ip6(), k.end_ip6())); break;
    case 2: ev.j("v4", list(k.begin(AF_INET), k.end(AF_INET))).j("v6", list(k.begin(AF_INET6), k.end(AF_INET6))); break;
    case 4: ev.j("v4", list_asg(k.begin_ip4(), k.end_ip4())).j("v6", list_asg(sp->begin_ip6(), sp->end_ip6())); break;
    case 3: ev.j("v4", back(sp->begin_ip4(), sp->end_ip4())).j("v6", back(sp->begin_ip6(), sp->end_ip6())); break;
    default: ev.j("v4", back(k.begin(AF_INET), k.end(AF_INET))).j("v6", back(k.begin(AF_INET6), k.end(AF_INET6))); break;
    }
    ep.emit(ev);
  }
  void mark(int f, int a, int b, int p) { ep.pending("mark"); sp->mark(c.range(f, a, b), Pay(p)); Ev ev("mark"); ev.i("f", f).i("a", a).i("b", b).i("p", p); obs(ev); }
  void fill(int f, int a, int b, int p) { ep.pending("fill"); sp->fill(c.range(f, a, b), Pay(p)); Ev ev("fill"); ev.i("f", f).i("a", a).i("b", b).i("p", p); obs(ev); }
  void erase(int f, int a, int b) { ep.pending("erase"); sp->erase(c.range(f, a, b)); Ev ev("erase"); ev.i("f", f).i("a", a).i("b", b); obs(ev); }
  void nofam() { // a range without a family changes nothing.
    ep.pending("nofam");
    IPRange none;
    switch (ep.rng.range(0, 2)) { case 0: sp->mark(none, Pay(1)); break; case 1: sp->fill(none, Pay(1)); break; default: sp->erase(none); break; }
    Ev ev("same"); obs(ev);
  }
  void clear() { ep.pending("clear"); sp->clear(); canon = true; Ev ev("clear"); obs(ev); }
  void blend(int f, int a, int b, std::string const &kind, int col) {
    ep.pending("blend " + kind);
    canon = false;
    auto fn = [&](Pay &v, int const &q) -> bool {
      int o = v.v;
      if (kind == "set") { v.v = q; return true; }
      if (kind == "add") { v.v = (o + q) % 4; return true; }
      if (kind == "keep") { if (o == 0) v.v = q; return true; }
      if (kind == "sub") { v.v = (o + q) % 3; return v.v != 0; }
      if (kind == "only") { v.v = (o + q) % 4; return o != 0; }
      return false;
    };
    IPRange r = c.range(f, a, b);
    if (ep.rng.chance(1, 2)) sp->blend(r, col, fn);
    else if (f == 4) sp->blend(r.ip4(), col, fn);
    else sp->blend(r.ip6(), col, fn);
    Ev ev("blend");
    ev.i("f", f).i("a", a).i("b", b).s("kind", kind).i("c", col);
    obs(ev);
  }
  void find(int f, int m) {
    ep.pending("find");
    Ev ev("find");
    ev.i("f", f).i("m", m);
    U128 a = c.some(f, m);
    Space const &k = *sp;
    auto one = [&](auto it, auto end) { return it == end ? std::string("[]") : "[" + seg(*it) + "]"; };
    std::vector<std::string> r;
    if (f == 4) {
      IP4Addr x = mk4(a.l);
      r.push_back(one(sp->find(x), sp->end()));
      r.push_back(one(k.find(x), k.end()));
      r.push_back(one(sp->find(IPAddr(x)), sp->end()));
      r.push_back(one(k.find(IPAddr(x)), k.end()));
    } else {
      IP6Addr x = mk6(a);
      r.push_back(one(sp->find(x), sp->end()));
      r.push_back(one(k.find(x), k.end()));
      r.push_back(one(sp->find(IPAddr(x)), sp->end()));
      r.push_back(one(k.find(IPAddr(x)), k.end()));
    }
    bool none = sp->find(IPAddr()) == sp->end() && k.find(IPAddr()) == k.end();
    ev.j("r", jlist(r)).b("none", none);
    ep.emit(ev);
  }
  // Iterate on from a found position, both ways.
  void walk(int f, int m) {
    ep.pending("walk");
    U128 a = c.some(f, m);
    Space::iterator it = f == 4 ? sp->find(mk4(a.l)) : sp->find(mk6(a));
    if (it == sp->end()) return;
    Ev ev("walk");
    ev.i("f", f).i("m", m).j("fwd", list(it, sp->end())).j("bwd", back(sp->begin(), it));
    ep.emit(ev);
  }
  void isect(int f, int a, int b) {
    ep.pending("isect");
    IPRange r = c.range(f, a, b);
    Ev ev("isect");
    ev.i("f", f).i("a", a).i("b", b);
    if (ep.rng.chance(1, 2)) { auto [x, y] = sp->intersection(r); ev.j("r", list(x, y)); }
    else if (f == 4) { auto [x, y] = sp->intersection(r.ip4()); ev.j("r", list(x, y)); }
    else { auto [x, y] = sp->intersection(r.ip6()); ev.j("r", list(x, y)); }
    auto [x, y] = sp->intersection(IPRange());
    ev.b("none", x == y);
    ep.emit(ev);
  }
  // Payloads are writable in place through the iterator.
  void poke(int f, int m, int p) {
    U128 a = c.some(f, m);
    Space::iterator it = f == 4 ? sp->find(mk4(a.l)) : sp->find(mk6(a));
    if (it == sp->end()) return;
    ep.pending("poke");
    canon = false; // "Range merges are not triggered by modifications of the PAYLOAD via an iterator."
    switch (ep.rng.range(0, 3)) {
    case 0: it->payload() = Pay(p); break;
    case 1: std::get<1>(it->tuple()) = Pay(p); break;
    case 2: (*it).payload().v = p; break;
    default: { auto && [r, pay] = *it; pay = Pay(p); } break;
    }
    Ev ev("poke");
    ev.i("f", f).i("m", m).i("p", p);
    obs(ev);
  }
};

static const std::vector<std::string> KINDS{"set", "add", "keep", "sub", "only", "wipe"};

static void space(Ep &ep) {
  int n = ep.rng.range(3, ep.thorough ? 12 : 8);
  Driver d(ep, n);
  int N[2] = {d.c.l4.size(), d.c.l6.size()};
  Ev ev("lines");
  ev.i("n4", N[0]).i("n6", N[1]);
  ep.emit(ev);
  int style = ep.rng.range(0, 3);
  bool blends = ep.rng.chance(1, 2);
  int steps = ep.thorough ? 120 : 70;
  int npay = ep.rng.range(1, 3);
  for (int k = 0; k < steps; ++k) {
    int f = style == 0 ? 4 : style == 1 ? 6 : ep.rng.chance(1, 2) ? 4 : 6;
    if (ep.rng.chance(1, 12)) f = 10 - f;
    int hi = N[f == 4 ? 0 : 1] - 1;
    int a = ep.rng.range(0, hi), b;
    int r = ep.rng.range(0, 9);
    b = std::min(hi, a + static_cast<int>(r < 6 ? ep.rng.range(0, 3) : ep.rng.range(0, hi)));
    if (r == 9) a = 0;
    if (r == 8) b = hi;
    int p = ep.rng.range(0, npay);
    int o = ep.rng.range(0, 99);
    if (o < 34) d.mark(f, a, b, p);
    else if (o < 50) d.fill(f, a, b, p);
    else if (o < 60) d.erase(f, a, b);
    else if (o < 70) { if (blends) d.blend(f, a, b, ep.rng.pick(KINDS), ep.rng.range(0, 3)); else d.fill(f, a, b, p); }
    else if (o < 80) d.find(f, a);
    else if (o < 84) d.walk(f, a);
    else if (o < 92) d.isect(f, a, b);
    else if (o < 95) { if (blends) d.poke(f, a, p); else d.find(f, b); }
    else if (o < 98) d.nofam();
    else if (ep.rng.chance(1, 3)) d.clear();
  }
  for (int f : {4, 6}) for (int m = 0; m < N[f == 4 ? 0 : 1]; m += 2) d.find(f, m);
  ep.pending("destroy");
  d.sp.reset();
}

static void rset(Ep &ep) {
  int n = ep.rng.range(3, ep.thorough ? 12 : 8);
  Ctx c{ep, line4(n), line6(n)};
  int N[2] = {c.l4.size(), c.l6.size()};
  Ev ev("lines");
  ev.i("n4", N[0]).i("n6", N[1]);
  ep.emit(ev);
  swoc::IPRangeSet s;
  auto obs = [&](Ev &ev) {
    swoc::IPRangeSet const &k = s;
    ep.pending("observe");
    std::vector<std::string> fwd, alt;
    int g = 0;
    for (auto it = k.begin(); it != k.end() && g < 3000; ++it, ++g) fwd.push_back("[" + c.rng(*it) + ",0]");
    switch (ep.rng.range(0, 4)) {
    case 4: {
      g = 0;
      swoc::IPRangeSet::const_iterator cur;
      cur = k.begin();
      for (; !(cur == k.end()) && g < 3000; ++g) {
        auto nxt(cur);
        ++nxt;
        IPRangeView v = *(cur.operator->());
        bool ok = cur->is_ip4() == v.is_ip4() && cur->valid() && cur->min() == v.min() && cur->max() == v.max();
        alt.push_back(ok ? "[" + c.rng(v) + ",0]" : "[0,0,0,0]");
        cur = nxt;
      }
    } break;
    case 0: g = 0; for (auto it = k.end(); it != k.begin() && g < 3000; ++g) { --it; alt.insert(alt.begin(), "[" + c.rng(*it) + ",0]"); } break;
    case 1: g = 0; for (auto it = k.begin(); it != k.end() && g < 3000; ++g) { auto x = it++; IPRangeView v = *x; alt.push_back("[" + c.rng(v) + ",0]"); } break;
    case 2: for (auto const &r : k) alt.push_back("[" + c.rng(r) + ",0]"); break;
    default: {
      g = 0;
      bool first = true;
      auto it = k.end();
      for (; it != k.begin() && g < 3000; ++g) { auto x = it--; if (!first) { IPRangeView v = *x; alt.insert(alt.begin(), "[" + c.rng(v) + ",0]"); } first = false; }
      if (!first) alt.insert(alt.begin(), "[" + c.rng(*it) + ",0]");
    } break;
    }
    ev.j("segs", jlist(fwd)).j("alt", jlist(alt)).i("n", k.count()).b("empty", k.empty());
    ep.emit(ev);
  };
  int steps = ep.thorough ? 150 : 60;
  for (int i = 0; i < steps; ++i) {
    int f = ep.rng.chance(1, 2) ? 4 : 6;
    int hi = N[f == 4 ? 0 : 1] - 1;
    int a = ep.rng.range(0, hi);
    int r = ep.rng.range(0, 19);
    int b = std::min(hi, a + static_cast<int>(r < 15 ? ep.rng.range(0, 2) : ep.rng.range(0, hi)));
    if (r == 19) a = 0;
    if (r == 18) b = hi;
    int o = ep.rng.range(0, 99);
    if (o < 30) { ep.pending("mark"); s.mark(c.range(f, a, b)); Ev ev("smark"); ev.i("f", f).i("a", a).i("b", b); obs(ev); }
    else if (o < 55) { ep.pending("fill"); s.fill(c.range(f, a, b)); Ev ev("sfill"); ev.i("f", f).i("a", a).i("b", b); obs(ev); }
    else if (o < 96) {
      ep.pending("contains");
      U128 x = c.some(f, a);
      Ev ev("contains");
      ev.i("f", f).i("m", a).b("r", f == 4 ? s.contains(mk4(x.l)) : s.contains(mk6(x))).b("none", s.contains(IPAddr()));
      ep.emit(ev);
    } else if (o < 98) { s.mark(IPRange()); s.fill(IPRange()); Ev ev("ssame"); obs(ev); }
    else if (ep.rng.chance(1, 3)) { ep.pending("clear"); s.clear(); Ev ev("sclear"); obs(ev); }
  }
  for (int f : {4, 6}) for (int m = 0; m < N[f == 4 ? 0 : 1]; ++m) {
    U128 x = c.some(f, m);
    Ev ev("contains");
    ev.i("f", f).i("m", m).b("r", f == 4 ? s.contains(mk4(x.l)) : s.contains(mk6(x))).b("none", s.contains(IPAddr()));
    ep.emit(ev);
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [&](Ep &ep) { ep.only == "set" ? rset(ep) : space(ep); }, 160, 1600);
}
