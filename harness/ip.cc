// Conformance driver for addresses, masks, networks, ranges and services (not the IP spaces, see ipspace.cc).
#include "vt.h"
#include "swoc/swoc_ip.h"
#include "swoc/bwf_ip.h"
#include "swoc/bwf_std.h"
#include "swoc/BufferWriter.h"
#include <cstring>
#include <sstream>
using namespace vt;
using swoc::IP4Addr; using swoc::IP6Addr; using swoc::IPAddr; using swoc::IPMask; using swoc::IP4Range; using swoc::IP6Range;
using swoc::IPRange; using swoc::IPRangeView; using swoc::IP4Net; using swoc::IP6Net; using swoc::IPNet; using swoc::IP4Srv;
using swoc::IP6Srv; using swoc::IPSrv; using swoc::IPEndpoint; using swoc::TextView;
using V = std::vector<int>; // 16 bit limbs, most significant first. Empty: not an address.

static IP4Addr mk4(V const &v) { return IP4Addr(static_cast<in_addr_t>((uint32_t(v[0]) << 16) | v[1])); }
static in6_addr in6(V const &v) {
  in6_addr x;
  for (int i = 0; i < 8; ++i) { x.s6_addr[2 * i] = v[i] >> 8; x.s6_addr[2 * i + 1] = v[i] & 0xff; }
  return x;
}
static IP6Addr mk6(V const &v) { return IP6Addr(in6(v)); }
static IPAddr mk(V const &v) { return v.empty() ? IPAddr{} : v.size() == 2 ? IPAddr(mk4(v)) : IPAddr(mk6(v)); }
static V from_in6(in6_addr const &x) {
  V r;
  for (int i = 0; i < 8; ++i) r.push_back((x.s6_addr[2 * i] << 8) | x.s6_addr[2 * i + 1]);
  return r;
}
static V from_in4(in_addr_t net) { uint32_t h = ntohl(net); return V{int(h >> 16), int(h & 0xffff)}; }
static V lv(IP4Addr const &a) { return from_in4(a.network_order()); }
static V lv(IP6Addr const &a) { in6_addr x; a.network_order(x); return from_in6(x); }
static V lv(IPAddr const &a) { return a.is_ip4() ? lv(a.ip4()) : a.is_ip6() ? lv(a.ip6()) : V{}; }
static V lv(sockaddr const *sa) {
  if (sa->sa_family == AF_INET) return from_in4(reinterpret_cast<sockaddr_in const *>(sa)->sin_addr.s_addr);
  if (sa->sa_family == AF_INET6) return from_in6(reinterpret_cast<sockaddr_in6 const *>(sa)->sin6_addr);
  return {};
}
struct SA { // a socket address built without the library.
  union { sockaddr sa; sockaddr_in s4; sockaddr_in6 s6; sockaddr_storage st; };
  SA(V const &v, int port = 0) {
    memset(&st, 0, sizeof st);
    if (v.size() == 2) { s4.sin_family = AF_INET; s4.sin_addr.s_addr = htonl((uint32_t(v[0]) << 16) | v[1]); s4.sin_port = htons(port); }
    else if (v.size() == 8) { s6.sin6_family = AF_INET6; s6.sin6_addr = in6(v); s6.sin6_port = htons(port); }
    else sa.sa_family = AF_UNSPEC;
  }
};
template <typename T> std::string prn(char const *fmt, T const &t) {
  swoc::LocalBufferWriter<400> w;
  w.print(fmt, t);
  return std::string(w.view());
}

struct Gen {
  Rng &r;
  std::vector<int> const lim{0, 0, 0, 1, 2, 0xffff, 0xfffe, 0x8000, 0x7fff, 0xff, 0x100, 0xabcd, 0x00a0, 0x0f00};
  std::vector<int> const hi4{0x7f00, 0x7eff, 0x8000, 0xa9fe, 0xa9ff, 0xa9fd, 0x0a00, 0x0aff, 0x0b00, 0x09ff, 0x6440, 0x647f, 0x6480, 0x643f, 0xac10, 0xac1f, 0xac20, 0xac0f, 0xc0a8, 0xc0a7, 0xc0a9, 0xe000, 0xefff, 0xdfff, 0xf000};
  std::vector<int> const hi6{0xfe80, 0xfebf, 0xfec0, 0xfe7f, 0xfc00, 0xfdff, 0xfe00, 0xfbff, 0xff00, 0xff02, 0xfeff, 0x2001, 0xffff, 0x7f00};
  int limb() { return r.chance(1, 4) ? r.range(0, 65535) : r.pick(lim); }
  V v4() {
    V v{limb(), limb()};
    if (r.chance(1, 3)) v[0] = r.pick(hi4);
    return v;
  }
  V v6() {
    V v;
    for (int i = 0; i < 8; ++i) v.push_back(limb());
    if (r.chance(1, 3)) v[0] = r.pick(hi6);
    if (r.chance(1, 3)) { int a = r.range(0, 7), b = r.range(a, 7); for (int i = a; i <= b; ++i) v[i] = 0; }
    if (r.chance(1, 8)) { for (int i = 0; i < 5; ++i) v[i] = 0; v[5] = r.chance(3, 4) ? 0xffff : 0; }
    if (r.chance(1, 10)) for (int i = 0; i < 7; ++i) v[i] = 0;
    if (r.chance(1, 12)) { int k = r.range(0, 8); for (int i = 0; i < 8; ++i) v[i] = i < k ? v[i] : 0xffff; }
    return v;
  }
  V of(int n) { return n == 2 ? v4() : v6(); }
  V fam() { return r.chance(1, 2) ? v4() : v6(); }
  V any() { return r.chance(1, 8) ? V{} : fam(); }
  V near(V v) { // an address not far away: adjacent ordering, one differing limb, same high part.
    if (v.empty() || r.chance(1, 6)) return any();
    switch (r.range(0, 4)) {
    case 0: return v;
    case 1: v[r.range(0, v.size() - 1)] = limb(); return v;
    case 2: { int i = r.range(0, v.size() - 1); v[i] = (v[i] + (r.chance(1, 2) ? 1 : 65535)) & 0xffff; return v; }
    case 3: { int i = r.range(0, v.size() - 1); v[i] ^= 1 << r.range(0, 15); return v; }
    default: return of(v.size());
    }
  }
  int width(int n) { return r.chance(1, 3) ? std::vector<int>{0, 1, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128}[r.range(0, n == 2 ? 7 : 13)] % (16 * n + 1) : r.range(0, 16 * n); }
  // first and last address of a network, and addresses just off that.
  std::pair<V, V> net(int n) {
    V v = of(n);
    int w = width(n);
    V lo = v, hi = v;
    for (int i = 0; i < n; ++i) {
      int k = std::min(16, std::max(0, w - 16 * i));
      int m = (1 << (16 - k)) - 1;
      lo[i] &= ~m;
      hi[i] |= m;
    }
    return {lo, hi};
  }
  V step(V v, int d) { // add small d, no wrap handling needed (wraps).
    long c = d;
    for (int i = v.size() - 1; i >= 0 && c; --i) { long x = v[i] + c; c = x < 0 ? -1 : x > 65535 ? 1 : 0; v[i] = x & 0xffff; }
    return v;
  }
  std::pair<V, V> range(int n) {
    auto p = net(n);
    switch (r.range(0, 6)) {
    case 0: p.first = step(p.first, r.range(0, 3)); break;
    case 1: p.second = step(p.second, -r.range(0, 3)); break;
    case 2: p.first = step(p.first, r.range(0, 5)); p.second = step(p.second, -r.range(0, 5)); break;
    case 3: p.first = step(p.first, -r.range(0, 5)); p.second = step(p.second, r.range(0, 5)); break;
    case 4: p.first = of(n); p.second = of(n); break;
    case 5: if (r.chance(1, 2)) p.second = p.first; break;
    default: break;
    }
    if (r.chance(1, 12)) p.first = V(n, 0);
    if (r.chance(1, 12)) p.second = V(n, 65535);
    if (p.second < p.first && r.chance(9, 10)) std::swap(p.first, p.second);
    return p;
  }
};

// ------------------------------------------------------------------------------------------------ addr (C10)
template <typename A> void typed_cmp(Ev &ev, A const &a, A const &b) {
  ev.v("t", V{a < b, a <= b, a > b, a >= b, a == b, a != b, a.cmp(b)});
}
template <typename A> std::string bools(A const &a) { return jints(V{a.is_loopback(), a.is_multicast(), a.is_link_local(), a.is_private()}); }

template <typename A> void shift_ev(Ep &ep, A const &a, V const &x, int n) {
  A l{a}, r{a};
  ep.pending("shift");
  l <<= n;
  r >>= n;
  ep.emit(Ev("shift").v("x", x).i("n", n).v("shl", lv(l)).v("shr", lv(r)));
}

static void addr_ops(Ep &ep) {
  Gen g{ep.rng};
  Rng &r = ep.rng;
  int n = ep.thorough ? 120 : 60;
  for (int k = 0; k < n; ++k) {
    switch (r.range(0, 12)) {
    case 0: case 1: case 2: {
      V x = g.any(), y = g.near(x);
      IPAddr a = mk(x), b = mk(y);
      ep.pending("cmp");
      Ev ev("cmp");
      ev.v("x", x).v("y", y).v("g", V{a < b, a <= b, a > b, a >= b, a == b, a != b, a.cmp(b)});
      if (x.size() == y.size() && x.size() == 2) typed_cmp(ev, mk4(x), mk4(y));
      else if (x.size() == y.size() && x.size() == 8) typed_cmp(ev, mk6(x), mk6(y));
      else ev.v("t", V{});
      // equality against a typed address, an end point and a socket address.
      V q;
      if (y.size() == 2) { auto t = mk4(y); q = {a == t, t == a, !(a != t), !(t != a)}; }
      if (y.size() == 8) { auto t = mk6(y); q = {a == t, t == a, !(a != t), !(t != a)}; }
      if (!y.empty()) {
        SA sa(y, r.range(0, 65535));
        IPEndpoint e(&sa.sa);
        q.insert(q.end(), {a == e, e == a, !(a != e), !(e != a), a == &sa.sa, &sa.sa == a, !(a != &sa.sa), !(&sa.sa != a)});
      }
      ev.v("q", q);
      ev.b("same", a.is_same_family(b));
      ev.b("h", std::hash<IPAddr>()(a) == std::hash<IPAddr>()(b));
      ep.emit(ev);
    } break;
    case 3: {
      V x = g.fam();
      if (r.chance(1, 3)) { int j = r.range(0, x.size() - 1); for (size_t i = j; i < x.size(); ++i) x[i] = r.chance(9, 10) ? (r.chance(1, 2) ? 0 : 65535) : x[i]; }
      ep.pending("step");
      V up, dn;
      if (x.size() == 2) { auto a = mk4(x), b = a; up = lv(++a); dn = lv(--b); }
      else { auto a = mk6(x), b = a; up = lv(++a); dn = lv(--b); }
      ep.emit(Ev("step").v("x", x).v("inc", up).v("dec", dn));
    } break;
    case 4: case 5: {
      V x = g.fam();
      int w = g.width(x.size());
      IPMask m(w);
      ep.pending("mask");
      Ev ev("mask");
      ev.v("x", x).i("w", w);
      IPAddr a = mk(x), b = a;
      a &= m;
      b |= m;
      ev.v("ga", lv(a)).v("go", lv(b)).v("gb", lv(mk(x) & m)).v("gc", lv(mk(x) | m));
      if (x.size() == 2) ev.v("ta", lv(mk4(x) & m)).v("to", lv(mk4(x) | m));
      else ev.v("ta", lv(mk6(x) & m)).v("to", lv(mk6(x) | m));
      ep.emit(ev);
    } break;
    case 6: {
      int w = r.range(0, 128), w2 = r.chance(1, 3) ? w : r.range(0, 128);
      IPMask m(w), c(w), wide(w), narrow(w), o(w2);
      c.clear();
      int nn = r.range(0, std::min(w, 128 - w));
      wide <<= nn;
      narrow >>= nn;
      ep.emit(Ev("ipmask").i("w", w).i("n", nn).i("o", w2).v("as4", lv(m.as_ip4())).v("as6", lv(m.as_ip6())).i("width", m.width()).b("valid", m.is_valid())
        .b("cleared", c.is_valid()).i("wide", wide.width()).i("narrow", narrow.width()).v("c", V{m == o, m != o, m < o}).b("def", IPMask().is_valid()));
    } break;
    case 7: {
      V x = g.fam();
      int w = g.width(x.size());
      if (r.chance(3, 4)) for (int i = 0; i < int(x.size()); ++i) { int kk = std::min(16, std::max(0, w - 16 * i)); x[i] &= ~((1 << (16 - kk)) - 1); }
      ep.pending("maskfor");
      int t = x.size() == 2 ? IPMask::mask_for(mk4(x)).width() : IPMask::mask_for(mk6(x)).width();
      ep.emit(Ev("maskfor").v("x", x).i("t", t).i("g", IPMask::mask_for(mk(x)).width()));
    } break;
    case 8: {
      V x = g.fam(), y = g.of(x.size());
      V a, o;
      ep.pending("bits");
      if (x.size() == 2) { auto p = mk4(x), q = p; p &= mk4(y); q |= mk4(y); a = lv(p); o = lv(q); }
      else { auto p = mk6(x), q = p; p &= mk6(y); q |= mk6(y); a = lv(p); o = lv(q); }
      ep.emit(Ev("bits").v("x", x).v("y", y).v("and", a).v("or", o));
    } break;
    case 9: {
      V x = g.fam();
      int s = r.range(0, 16 * x.size() - 1);
      if (r.chance(1, 4)) s = std::vector<int>{0, 1, 15, 16, 17, 31, 63, 64, 65, 127}[r.range(0, x.size() == 2 ? 5 : 9)];
      if (x.size() == 2) shift_ev(ep, mk4(x), x, s); else shift_ev(ep, mk6(x), x, s);
    } break;
    case 10: case 11: {
      V x = g.fam();
      int port = r.range(0, 65535);
      ep.pending("conv");
      Ev ev("conv");
      ev.v("x", x);
      SA src(x, port), dst(V{}), gdst(V{});
      IPAddr a = mk(x);
      V idx;
      std::vector<std::string> forms;
      auto add = [&](V const &v) { forms.push_back(jints(v)); };
      if (x.size() == 2) {
        auto t = mk4(x);
        for (int i = 0; i < 4; ++i) idx.push_back(t[i]);
        t.copy_to(&dst.sa);
        IP4Addr z{&src.s4}, z2, z3;
        z2 = &src.s4;
        z3 = src.s4.sin_addr.s_addr; // network order
        add(lv(z)); add(lv(z2)); add(lv(z3)); add(lv(IP4Addr(t.host_order()))); add(lv(IPAddr(t.host_order())));
        add(lv(IP4Addr(IP4Addr::reorder(t.network_order()))));
        IPAddr b; b = src.s4.sin_addr.s_addr; add(lv(b));
        IPAddr c; c.assign(src.s4.sin_addr.s_addr); add(lv(c));
        IPAddr d; d.assign(&src.s4); add(lv(d));
        ev.v("any", V{t.is_any(), a == IPAddr(t), IP4Addr(a) == t});
        ev.v("map", lv(IP6Addr(t))).b("mapped", IP6Addr(t).is_mapped_ip4());
      } else {
        auto t = mk6(x);
        for (int i = 0; i < 16; ++i) idx.push_back(t[i]);
        t.copy_to(&dst.sa);
        IP6Addr z{&src.s6}, z2, z3;
        z2 = &src.s6;
        z3 = src.s6.sin6_addr;
        add(lv(z)); add(lv(z2)); add(lv(z3)); add(from_in6(t.network_order())); add(lv(IPAddr(src.s6.sin6_addr)));
        IPAddr b; b = src.s6.sin6_addr; add(lv(b));
        IPAddr c; c.assign(src.s6.sin6_addr); add(lv(c));
        IPAddr d; d.assign(&src.s6); add(lv(d));
        in6_addr ho, ho2 = t.host_order();
        t.host_order(ho);
        V hv;
        for (int i = 0; i < 16; ++i) hv.push_back(ho.s6_addr[i]);
        ev.v("ho", hv).b("ho2", 0 == memcmp(&ho, &ho2, 16));
        IP6Addr cl{t}; cl.clear();
        ev.v("any", V{t.is_any(), a == IPAddr(t), IP6Addr(a) == t && cl.is_any()});
        ev.v("map", V{}).b("mapped", t.is_mapped_ip4());
      }
      a.copy_to(&gdst.sa);
      add(lv(&dst.sa)); add(lv(&gdst.sa)); add(lv(IPAddr(&src.sa)));
      IPAddr e1; e1 = &src.sa; add(lv(e1));
      IPEndpoint ep1(a), ep2(&src.sa);
      add(lv(&ep1.sa)); add(lv(&ep2.sa)); add(lv(IPAddr(ep1))); add(lv(IPAddr(ep2)));
      IPAddr e2; e2 = ep2; add(lv(e2));
      IPAddr inv{a}; inv.invalidate();
      {
        IPAddr n4(a), n6(a); IP6Addr t6{IP6Addr::MAX};
        n4.assign(static_cast<sockaddr_in const *>(nullptr)); n6.assign(static_cast<sockaddr_in6 const *>(nullptr)); t6 = static_cast<sockaddr_in6 const *>(nullptr);
        SA other(x, port); other.sa.sa_family = AF_UNIX;
        IPAddr un(&other.sa), un2(a); un2.assign(&other.sa); IPEndpoint ue(&other.sa), ue2(a); ue2.assign(&other.sa);
        ev.v("nul", V{n4.is_valid(), n6.is_valid(), !t6.is_any(), IPMask::mask_for(IPAddr{}).is_valid(), un.is_valid(), un2.is_valid(), ue.is_valid(), ue2.is_valid(), IPEndpoint::is_valid(&other.sa), IPEndpoint::is_valid(nullptr),
          IPEndpoint::host_order_port(&other.sa), swoc::ip::is_loopback(&other.sa), swoc::ip::is_multicast(&other.sa), swoc::ip::is_private(&other.sa), swoc::ip::is_link_local(&other.sa)});
        bool thr = false;
        try { (void)IPEndpoint::port(&other.sa); } catch (std::domain_error const &) { thr = true; }
        ev.b("thr", thr);
      }
      ev.v("idx", idx).j("forms", jlist(forms)).v("v", V{a.is_valid(), inv.is_valid(), a.is_ip4(), a.is_ip6(), a.family() == AF_INET, a.family() == AF_INET6, IPAddr().is_valid()});
      ep.emit(ev);
    } break;
    default: {
      V x = g.fam();
      if (r.chance(1, 6)) { x = V(x.size(), 0); x.back() = r.range(0, 2); }
      ep.pending("class");
      Ev ev("class");
      SA sa(x, 80);
      IPAddr a = mk(x);
      IPEndpoint e(a);
      std::vector<std::string> c{bools(a), bools(e)};
      if (x.size() == 2) c.push_back(bools(mk4(x))); else c.push_back(bools(mk6(x)));
      c.push_back(jints(V{swoc::ip::is_loopback(&sa.sa), swoc::ip::is_multicast(&sa.sa), swoc::ip::is_link_local(&sa.sa), swoc::ip::is_private(&sa.sa)}));
      if (x.size() == 2) {
        in_addr_t h = mk4(x).host_order(), w = mk4(x).network_order();
        c.push_back(jints(V{swoc::ip::is_loopback_host_order(h), swoc::ip::is_multicast_host_order(h), swoc::ip::is_link_local_host_order(h), swoc::ip::is_private_host_order(h)}));
        c.push_back(jints(V{swoc::ip::is_loopback_network_order(w), swoc::ip::is_multicast_network_order(w), swoc::ip::is_link_local_network_order(w), swoc::ip::is_private_network_order(w)}));
      } else {
        in6_addr w = mk6(x).network_order();
        c.push_back(jints(V{swoc::ip::is_loopback_network_order(w), swoc::ip::is_multicast_network_order(w), swoc::ip::is_link_local_network_order(w), swoc::ip::is_private_network_order(w)}));
        in6_addr z = in6addr_loopback;
        ev.v("eq6", V{w == z, !(w != z)});
      }
      c.push_back(jints(V{e.is_loopback(), IPEndpoint::is_multicast(&sa.sa), IPEndpoint::is_link_local(&sa.sa), IPEndpoint::is_private(&sa.sa)}));
      ev.v("x", x).j("c", jlist(c)).v("a", V{e.is_any(), x.size() == 2 ? mk4(x).is_any() : mk6(x).is_any()});
      IPAddr none;
      ev.v("none", V{none.is_loopback(), none.is_multicast(), none.is_link_local(), none.is_private()});
      ep.emit(ev);
    } break;
    }
  }
}

// ------------------------------------------------------------------------------------------------ text
struct TextGen {
  Gen &g;
  Rng &r;
  static std::string hex(unsigned v, bool up = false) { char b[16]; snprintf(b, sizeof b, up ? "%X" : "%x", v); return b; }
  std::string part4(unsigned v) {
    char b[32];
    switch (r.range(0, 11)) {
    case 0: snprintf(b, sizeof b, "0x%x", v); break;
    case 1: snprintf(b, sizeof b, "0X%X", v); break;
    case 2: snprintf(b, sizeof b, "0%o", v); break;
    case 3: snprintf(b, sizeof b, "%u", v + 256 * (unsigned)r.range(0, 1)); break;
    default: snprintf(b, sizeof b, "%u", v); break;
    }
    return b;
  }
  std::string t4(V const &v, bool odd = true) {
    unsigned a = (unsigned(v[0]) << 16) | v[1];
    int n = odd && r.chance(1, 6) ? r.range(1, 4) : 4;
    std::string s;
    for (int i = 0; i < n; ++i) {
      if (i) s += '.';
      unsigned o = i < n - 1 ? (a >> (24 - 8 * i)) & 0xff : (n == 1 ? a : a & ((1u << (32 - 8 * i)) - 1));
      s += odd ? part4(o) : std::to_string(o);
    }
    return s;
  }
  std::string t6(V const &v, bool odd = true) {
    // choose a run of zeros for '::' (any run, not just the best), pad groups, mix case.
    std::vector<std::pair<int, int>> runs;
    for (int i = 0; i < 8; ++i) for (int j = i; j < 8 && v[j] == 0; ++j) runs.push_back({i, j});
    int a = 9, b = 9;
    if (!runs.empty() && r.chance(4, 5)) std::tie(a, b) = r.pick(runs);
    std::string s;
    for (int i = 0; i < 8; ++i) {
      if (i == a) { s += "::"; i = b; continue; }
      if (!s.empty() && s.back() != ':') s += ':';
      char buf[8];
      snprintf(buf, sizeof buf, odd && r.chance(1, 4) ? "%04x" : odd && r.chance(1, 3) ? "%X" : "%x", v[i]);
      s += buf;
    }
    return s;
  }
  std::string text(V const &v, bool odd = true) { return v.size() == 2 ? t4(v, odd) : t6(v, odd); }
  std::string mutate(std::string s) {
    static std::string const alpha = "0123456789abcdefABCDEFgx:.[]-/ \t+%z";
    int n = r.chance(2, 3) ? 1 : r.range(1, 3);
    for (int k = 0; k < n; ++k) {
      size_t i = r.range(0, s.size());
      switch (r.range(0, 6)) {
      case 0: s.insert(i, 1, alpha[r.range(0, alpha.size() - 1)]); break;
      case 1: if (i < s.size()) s.erase(i, 1); break;
      case 2: if (i < s.size()) s[i] = alpha[r.range(0, alpha.size() - 1)]; break;
      case 3: if (i < s.size()) s.insert(i, 1, s[i]); break;
      case 4: if (i < s.size()) s = s.substr(0, i); break;
      case 5: if (i < s.size()) s = s.substr(i); break;
      case 6: if (i < s.size()) { size_t j = r.range(i, s.size()); s.insert(r.range(0, s.size()), s.substr(i, j - i)); } break;
      }
    }
    return s;
  }
  std::string wrap(std::string s) {
    if (r.chance(1, 6)) s = "[" + s + "]";
    if (r.chance(1, 10)) s = " " + s;
    if (r.chance(1, 10)) s += r.chance(1, 2) ? "\t" : "  ";
    return s;
  }
  std::string any_text() {
    std::string s = wrap(text(g.fam()));
    if (r.chance(1, 2)) s = mutate(s);
    if (r.chance(1, 40)) s = "";
    if (r.chance(1, 40)) s = r.pick(std::vector<std::string>{"::", ":", ":::", "[::]", "[]", "[", "]", ".", "1.", ".1", "0", "1", "4294967295", "4294967296", "::1", "1::", "256.1.1.1", "1.2.3.256", "1.2.65535", "1.2.65536", "1.16777215", "1.16777216", "1.2.3.4.5", "0x", "00", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1::3:4:5:6:7:8", "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8", "1::2::3", "99999999999999999999", "0.0.0.99999999999999999999999", "18446744073709551617", "::ffff:1.2.3.4", "::00001", "12345::", "-1", "+1.2.3.4", "1.2.3.+4", "0777.1", "08.1", "  ", "\t"});
    if (s.size() > 60) s.resize(60);
    return s;
  }
};
// The text is placed at the end of a heap block, so that any read past it is seen.
struct Tight {
  char *p;
  size_t n;
  Tight(std::string const &s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  ~Tight() { delete[] p; }
  std::string_view sv() const { return {p, n}; }
};

static void text_ops(Ep &ep) {
  Rng &r = ep.rng;
  Gen g{r};
  TextGen tg{g, r};
  int n = ep.thorough ? 100 : 50;
  for (int k = 0; k < n; ++k) {
    if (r.chance(2, 3)) {
      std::string s = tg.any_text();
      Tight t(s);
      ep.pending("load " + s);
      Ev ev("load");
      ev.t("t", s);
      IP4Addr a4(mk4(g.v4()));
      IP6Addr a6(mk6(g.v6()));
      IPAddr a(mk(g.any()));
      bool b4 = a4.load(t.sv()), b6 = a6.load(t.sv()), b = a.load(t.sv());
      ev.b("ok4", b4).v("v4", lv(a4)).b("ok6", b6).v("v6", lv(a6)).b("ok", b).v("v", lv(a));
      ev.v("c4", lv(IP4Addr(t.sv()))).v("c6", lv(IP6Addr(t.sv()))).v("c", lv(IPAddr(t.sv())));
      ep.emit(ev);
    } else {
      V x = g.fam();
      IPAddr a = mk(x);
      ep.pending("print");
      Ev ev("print");
      ev.v("x", x);
      SA sa(x, 0);
      std::vector<std::string> d{jbytes(prn("{}", a)), jbytes(prn("{::a}", a)), jbytes(prn("{::a}", &sa.sa))}, full{jbytes(prn("{::=}", a)), jbytes(prn("{::=a}", a)), jbytes(prn("{::=a}", &sa.sa))},
        up{jbytes(prn("{:X}", a))}, hex{jbytes(prn("{:x}", a))}, ful_up{jbytes(prn("{:X:=}", a))}, sp{jbytes(prn("{:: =}", a))};
      auto typed = [&](auto const &t) {
        d.push_back(jbytes(prn("{}", t)));
        full.push_back(jbytes(prn("{::=}", t)));
        up.push_back(jbytes(prn("{:X}", t)));
        hex.push_back(jbytes(prn("{:x}", t)));
        ful_up.push_back(jbytes(prn("{:X:=}", t)));
        sp.push_back(jbytes(prn("{:: =}", t)));
      };
      if (x.size() == 2) typed(mk4(x)); else { typed(mk6(x)); d.push_back(jbytes(prn("{}", in6(x)))); }
      ev.j("d", jlist(d)).j("full", jlist(full)).j("up", jlist(up)).j("hex", jlist(hex)).j("fullup", jlist(ful_up)).j("sp", jlist(sp));
      ev.t("f", prn("{::f}", a)).t("af", prn("{::af}", a)).t("f2", prn("{::f}", &sa.sa)).t("af2", prn("{::af}", &sa.sa)).t("fn", IPEndpoint::family_name(sa.sa.sa_family));
      ev.t("nf", prn("{:d:f}", a)).t("nf2", prn("{:d:f}", &sa.sa)).t("fu", IPEndpoint::family_name(AF_UNIX)).t("fx", IPEndpoint::family_name(250)).t("fz", prn("{::f}", IPAddr{}));
      sp.clear(); sp.push_back(jbytes(prn("{:: =a}", &sa.sa)));
      ev.j("sp2", jlist(sp)).t("sp5", prn("{:: =p}", &sa.sa));
      std::ostringstream os;
      if (x.size() == 2) os << mk4(x); else os << mk6(x);
      os << '|' << a;
      ev.t("os", os.str());
      ep.emit(ev);
    }
  }
}

// ------------------------------------------------------------------------------------------------ range, net (C11)
static std::string jr(V const &a, V const &b) { return "[" + jints(a) + "," + jints(b) + "]"; }
template <typename R> std::string rng(R const &r) { return jr(lv(r.min()), lv(r.max())); }
static std::string grng(IPRange const &r) { return r.is_ip4() ? rng(r.ip4()) : r.is_ip6() ? rng(r.ip6()) : "[]"; }

static void range_ops(Ep &ep) {
  Rng &r = ep.rng;
  Gen g{r};
  TextGen tg{g, r};
  int n = ep.thorough ? 100 : 50;
  for (int k = 0; k < n; ++k) {
    int nn = r.chance(1, 2) ? 2 : 8;
    switch (r.range(0, 5)) {
    case 0: case 1: { // load
      auto p = g.range(nn);
      std::string s;
      int kind = r.range(0, 3);
      if (kind == 0) s = tg.text(p.first, r.chance(1, 4)) + "-" + tg.text(r.chance(1, 20) ? g.fam() : p.second, r.chance(1, 4));
      else if (kind == 1) s = tg.text(p.first, r.chance(1, 4)) + "/" + std::to_string(r.chance(1, 5) ? r.range(0, 300) : g.width(nn));
      else if (kind == 2) s = tg.text(p.first, r.chance(1, 4));
      else { // a mask address
        V m(nn, 0);
        int w = g.width(nn);
        for (int i = 0; i < nn; ++i) m[i] = 0xffff & ~((1 << (16 - std::min(16, std::max(0, w - 16 * i)))) - 1);
        if (r.chance(1, 4)) m[r.range(0, nn - 1)] ^= 1 << r.range(0, 15);
        s = tg.text(p.first, false) + "/" + tg.text(m, false);
      }
      if (r.chance(1, 4)) s = tg.mutate(s);
      if (s.size() > 90) s.resize(90);
      Tight t(s);
      ep.pending("rload " + s);
      Ev ev("rload");
      ev.t("t", s);
      auto q = g.range(2); auto q6 = g.range(8);
      IP4Range r4(mk4(q.first), mk4(q.second));
      IP6Range r6(mk6(q6.first), mk6(q6.second));
      IPRange gr;
      if (r.chance(1, 2)) gr = IPRange(mk4(q.first), mk4(q.second)); else if (r.chance(1, 2)) gr = IPRange(mk6(q6.first), mk6(q6.second));
      bool o4 = r4.load(t.sv()), o6 = r6.load(t.sv()), og = gr.load(t.sv());
      ev.b("o4", o4).j("r4", o4 ? rng(r4) : "[]").b("e4", r4.empty()).b("o6", o6).j("r6", o6 ? rng(r6) : "[]").b("e6", r6.empty()).b("o", og).j("r", grng(gr)).b("e", gr.empty());
      ev.j("c4", rng(IP4Range(t.sv()))).b("ce4", IP4Range(t.sv()).empty()).j("c6", rng(IP6Range(t.sv()))).b("ce6", IP6Range(t.sv()).empty()).j("c", grng(IPRange(t.sv())));
      // networks
      IP4Net n4(mk4(g.v4()), IPMask(g.width(2)));
      IP6Net n6(mk6(g.v6()), IPMask(g.width(8)));
      V gv = g.fam();
      IPNet ng(mk(gv), IPMask(g.width(gv.size())));
      bool p4 = n4.load(t.sv()), p6 = n6.load(t.sv()), pg = ng.load(t.sv());
      auto net = [](auto const &x) { auto [a, m] = x; return "[" + jints(lv(a)) + "," + jint(m.width()) + "]"; };
      ev.b("p4", p4).j("n4", p4 ? net(n4) : "[]").b("ne4", n4.empty()).b("p6", p6).j("n6", p6 ? net(n6) : "[]").b("ne6", n6.empty()).b("p", pg).j("n", pg ? net(ng) : "[]").b("ne", ng.empty());
      IP4Net c4(t.sv()); IP6Net c6(t.sv()); IPNet cg(t.sv());
      ev.j("m4", c4.empty() ? "[]" : net(c4)).j("m6", c6.empty() ? "[]" : net(c6)).j("m", cg.empty() ? "[]" : net(cg)).t("mt", prn("{}", cg));
      ep.emit(ev);
    } break;
    case 2: case 3: { // a range: print, contains, mask
      auto p = g.range(nn);
      ep.pending("range");
      Ev ev("range");
      ev.v("lo", p.first).v("hi", p.second);
      std::vector<std::string> pr, co, em, nm;
      std::vector<std::string> has;
      std::vector<V> probes;
      for (int i = 0; i < 6; ++i) {
        V x = i < 2 ? g.near(p.first) : i < 4 ? g.near(p.second) : i == 4 ? g.step(p.first, r.range(-1, 1)) : g.step(p.second, r.range(-1, 1));
        if (!x.empty()) probes.push_back(x);
      }
      auto typed = [&](auto const &t) {
        pr.push_back(jbytes(prn("{}", t)));
        co.push_back(jbytes(prn("{::c}", t)));
        nm.push_back(jint(t.network_mask().width()));
        em.push_back(jint(t.empty()));
        IPRange gr(t);
        IPRangeView vw;
        vw.assign(t);
        IPRange cp(vw), av(mk(g.fam()));
        av = vw;
        IPRangeView v2; v2 = vw;
        IPRange g2(mk(p.first), mk(p.second)), cv2(v2);
        swoc::DiscreteRange<std::decay_t<decltype(t.min())>> const &base = t;
        std::decay_t<decltype(t)> fb(base);
        pr.push_back(jbytes(prn("{}", fb)));
        { std::ostringstream o1, o3; o1 << t; o3 << gr; pr.push_back(jbytes(o1.str())); pr.push_back(jbytes(o3.str())); }
        if (p.first == p.second) {
          std::decay_t<decltype(t)> one(t.min());
          IPRange o1(mk(p.first)), o3(t.min());
          pr.push_back(jbytes(prn("{}", one))); pr.push_back(jbytes(prn("{}", o1))); pr.push_back(jbytes(prn("{}", o3)));
          one.clear(); one.assign(t.min()); pr.push_back(jbytes(prn("{}", one)));
        }
        {
          IPRange none, f4(mk4(g.v4())), f6(mk6(g.v6()));
          IPRange const &o = nn == 2 ? f6 : f4;
          IPRangeView nv, fv; if (nn == 2) fv.assign(f6.ip6()); else fv.assign(f4.ip4());
          ev.v("xf", V{none.min().is_valid(), none.max().is_valid(), !none.empty(), none.network_mask().is_valid(), none.contains(mk(p.first)), nv.contains(mk(p.first)), !(none == IPRange{}), none != IPRange{}, gr == none, gr == o, !(gr != o),
            vw == nv, vw == fv, !(vw != fv), vw == none, vw == o, !(nv == IPRangeView{}), !(nv == none), !(none.networks().begin() == none.networks().end()), nv.valid(), !nv.empty(), nv.min().is_valid(), nv.max().is_valid()});
        }
        for (IPRange const &x : {gr, cp, g2, av, cv2}) {
          pr.push_back(jbytes(prn("{}", x)));
          co.push_back(jbytes(prn("{::c}", x)));
          nm.push_back(jint(x.network_mask().width()));
          em.push_back(jint(x.empty()));
        }
        pr.push_back(jbytes(prn("{}", vw)));
        co.push_back(jbytes(prn("{::c}", vw)));
        em.push_back(jint(vw.empty()));
        for (V const &x : probes) {
          V h{gr.contains(mk(x)), vw.contains(mk(x))};
          if (x.size() == 2) { h.push_back(gr.contains(mk4(x))); h.push_back(vw.contains(mk4(x))); if constexpr (std::is_same_v<std::decay_t<decltype(t)>, IP4Range>) h.push_back(t.contains(mk4(x))); }
          else { h.push_back(gr.contains(mk6(x))); h.push_back(vw.contains(mk6(x))); if constexpr (std::is_same_v<std::decay_t<decltype(t)>, IP6Range>) h.push_back(t.contains(mk6(x))); }
          has.push_back("[" + jints(x) + "," + jints(h) + "]");
        }
        auto oth = g.range(nn);
        if (r.chance(1, 3)) oth = p;
        IPRange o2 = nn == 2 ? IPRange(mk4(oth.first), mk4(oth.second)) : IPRange(mk6(oth.first), mk6(oth.second));
        IPRangeView ov;
        if (nn == 2) ov.assign(o2.ip4()); else ov.assign(o2.ip6());
        ev.j("o", jr(oth.first, oth.second)).v("q", V{gr == o2, !(gr != o2), vw == ov, !(vw != ov), vw == o2});
        IPRange cl(gr); cl.clear();
        IPRangeView cv(vw); cv.clear();
        ev.v("cl", V{cl.empty(), !cl.is_ip4() && !cl.is_ip6(), cv.empty(), !cv.valid()});
        ev.v("fam", V{gr.is_ip4(), gr.is_ip6(), gr.is(AF_INET), gr.is(AF_INET6), gr.family() == AF_INET, gr.family() == AF_INET6, vw.is_ip4(), vw.is_ip6(), vw.is(AF_INET), vw.is(AF_INET6), vw.valid(), vw.valid()});
        ev.j("mm", jlist({jr(lv(gr.min()), lv(gr.max())), jr(lv(vw.min()), lv(vw.max()))}));
        if (t.empty()) ev.b("nets", gr.networks().begin() == gr.networks().end());
      };
      if (nn == 2) typed(IP4Range(mk4(p.first), mk4(p.second))); else typed(IP6Range(mk6(p.first), mk6(p.second)));
      ev.j("pr", jlist(pr)).j("co", jlist(co)).j("em", jlist(em)).j("nm", jlist(nm)).j("has", jlist(has));
      ep.emit(ev);
    } break;
    default: { // network from address and mask.
      V x = g.of(nn);
      int w = g.width(nn), w2 = r.chance(1, 2) ? w : g.width(nn);
      V y = r.chance(1, 2) ? g.near(x) : x;
      if (int(y.size()) != nn) y = x;
      ep.pending("net");
      Ev ev("net");
      ev.v("x", x).i("w", w).v("y", y).i("w2", w2);
      std::vector<std::string> rs, ps;
      IPMask m(w), m2(w2);
      auto both = [&](auto const &t, auto const &t2, auto r1) {
        rs.push_back(rng(t.as_range()));
        rs.push_back(jr(lv(t.min()), lv(t.max())));
        ps.push_back(jbytes(prn("{}", t)));
        auto rr = r1;
        rr.assign(t.min(), m);
        rs.push_back(rng(r1));
        rs.push_back(rng(rr));
        ev.v("q", V{t == t2, !(t != t2)});
        auto c = t;
        c.assign(t2.min(), m2);
        ev.b("asg", c == t2);
        c.clear();
        ev.b("cl", c.empty());
      };
      if (nn == 2) both(IP4Net(mk4(x), m), IP4Net(mk4(y), m2), IP4Range(mk4(x), m)); else { IP6Range mr; mr.assign(mk6(x), m); both(IP6Net(mk6(x), m), IP6Net(mk6(y), m2), mr); }
      IPNet gn(mk(x), m), gn2(mk(y), m2);
      rs.push_back(grng(gn.as_range()));
      rs.push_back(jr(lv(gn.min()), lv(gn.max())));
      if (nn == 2) rs.push_back(rng(gn.ip4().as_range())); else rs.push_back(rng(gn.ip6().as_range()));
      ps.push_back(jbytes(prn("{}", gn)));
      IPNet ga; ga.assign(mk(y), m2);
      IPNet gc(ga); gc.clear();
      ev.v("gq", V{gn == gn2, !(gn != gn2)}).b("gasg", ga == gn2).v("gcl", V{gc.empty(), IPNet().empty()}).i("gw", gn.width());
      V mx;
      if (nn == 2) { mx = {gn == IP4Net(mk4(y), m2), IP4Net(mk4(y), m2) == gn}; } else { mx = {gn == IP6Net(mk6(y), m2), IP6Net(mk6(y), m2) == gn}; }
      ev.v("mix", mx).j("rs", jlist(rs)).j("ps", jlist(ps)).v("fam", V{gn.is_ip4(), gn.is_ip6(), gn.family() == AF_INET, gn.family() == AF_INET6}).t("none", prn("{}", IPNet{}));
      ep.emit(ev);
    } break;
    }
  }
}

// ------------------------------------------------------------------------------------------------ networks (C07)
template <typename S> std::string nets(S src, bool post, int lim) {
  std::vector<std::string> r;
  int k = 0;
  auto it = src.begin(), end = src.end();
  while (it != end && k++ < lim) {
    auto n = *it;
    if (k % 2) { auto const &[a, m] = n; r.push_back("[" + jints(lv(a)) + "," + jint(m.width()) + "]"); }
    else r.push_back("[" + jints(lv(n.min())) + "," + jint(n.mask().width()) + "]");
    if (post) { auto was = it++; if (!(was != it) && it != end) { r.push_back("[]"); break; } }
    else ++it;
  }
  return jlist(r);
}
template <typename S> std::string nets_arrow(S src, int lim) { // through operator->, addr() and mask().
  std::vector<std::string> r;
  int k = 0;
  auto it = src.begin(), end = src.end();
  for (; !(it == end) && k < lim; ++it, ++k) r.push_back("[" + jints(lv(it.addr())) + "," + jint(it->mask().width()) + "]");
  return jlist(r);
}
static void net_ops(Ep &ep) {
  Rng &r = ep.rng;
  Gen g{r};
  int n = ep.thorough ? 60 : 30;
  for (int k = 0; k < n; ++k) {
    int nn = r.chance(1, 2) ? 2 : 8;
    auto p = g.range(nn);
    if (r.chance(1, 3)) { // a small range.
      p.first = g.of(nn);
      if (r.chance(1, 3)) for (int i = r.range(0, nn - 1); i < nn; ++i) p.first[i] = 65535;
      p.second = g.step(p.first, r.range(0, 40));
      if (p.second < p.first) p.second = V(nn, 65535);
    }
    ep.pending("nets");
    Ev ev("nets");
    ev.v("lo", p.first).v("hi", p.second);
    std::vector<std::string> c;
    int lim = 300;
    auto all = [&](auto const &t) {
      c.push_back(nets(t.networks(), false, lim));
      c.push_back(nets(t.networks(), true, lim));
      c.push_back(nets_arrow(t.networks(), lim));
      IPRange gr(t);
      IPRangeView vw;
      vw.assign(t);
      c.push_back(nets(gr.networks(), false, lim));
      c.push_back(nets(gr.networks(), true, lim));
      c.push_back(nets(vw.networks(), false, lim));
      c.push_back(nets_arrow(gr.networks(), lim));
      // equality of sources: the same networks of the same family are left.
      if (t.empty()) { ev.v("q", V{gr.networks() == gr.networks().end(), t.networks() == t.networks().end()}); return; }
      auto ns = gr.networks(), adv(ns);
      auto ts = t.networks(), tadv(ts);
      ++adv;
      ++tadv;
      IPRange::NetSource cp(ns), none = IPRange().networks(), other = gr.is_ip4() ? IPRange(mk6(V(8, 65535)), mk6(V(8, 65535))).networks() : IPRange(mk4(V(2, 65535)), mk4(V(2, 65535))).networks();
      ++cp;
      bool last = adv == ns.end();
      ++other;
      ev.v("q", V{ns == gr.networks(), !(ns != gr.networks()), ns == ns.begin(), !(ns == adv), ns != adv, cp == adv, !(cp != adv), !(ns == none), none == IPRange().networks(), !(none != IPRange().networks()), none.begin() == none.end(), none.addr().is_valid(),
                  none.mask().is_valid(), other == other.end(), other != ns.end(), !(other == adv), adv.end() == ns.end(), last == (tadv == ts.end()), ts == t.networks(), !(ts != t.networks()), !(ts == tadv), ts != tadv});
    };
    if (nn == 2) all(IP4Range(mk4(p.first), mk4(p.second))); else all(IP6Range(mk6(p.first), mk6(p.second)));
    ev.j("c", jlist(c));
    ep.emit(ev);
  }
}

// ------------------------------------------------------------------------------------------------ services (C12)
struct SrvState {
  IPSrv s;
  IPEndpoint e;
};
// the parts of an IPv6 socket address which are neither address nor port.
static V parts(sockaddr const *sa) {
  if (sa->sa_family != AF_INET6) return {};
  auto s6 = reinterpret_cast<sockaddr_in6 const *>(sa);
  return {int(s6->sin6_flowinfo), int(s6->sin6_scope_id)};
}
static void obs(Ev &ev, SrvState const &st) {
  auto const &s = st.s;
  ev.v("sa", lv(s.addr())).i("sp", s.host_order_port()).v("sx", V{s.is_valid(), s.is_ip4(), s.is_ip6(), s.family() == AF_INET, s.family() == AF_INET6, ntohs(s.network_order_port())});
  auto const &e = st.e;
  ev.v("ea", lv(&e.sa)).i("epo", e.host_order_port()).v("ex", V{e.is_valid(), e.is_ip4(), e.is_ip6(), e.is_any(), e.is_loopback(), ntohs(e.network_order_port()), e.ip4() == &e.sa4, const_cast<IPEndpoint &>(e).ip6() == &e.sa6,
    e.family() == AF_INET, e.family() == AF_INET6, IPEndpoint::is_valid(&e.sa), IPEndpoint::host_order_port(&e.sa), ntohs(IPEndpoint::network_order_port(&e.sa))})
    .v("sz", V{int(e.size()), int(e.sa_size()), int(e.raw_addr().size())})
    .v("sc", parts(&e.sa));
}
static void srv_ops(Ep &ep) {
  Rng &r = ep.rng;
  Gen g{r};
  TextGen tg{g, r};
  SrvState st;
  auto port = [&]() -> int { return r.chance(1, 5) ? 0 : r.chance(1, 3) ? std::vector<int>{1, 255, 256, 80, 65535, 32768, 0x1234}[r.range(0, 6)] : r.range(0, 65535); };
  {
    Ev ev("init");
    obs(ev, st);
    ev.v("szs", V{int(sizeof(sockaddr)), int(sizeof(sockaddr_in)), int(sizeof(sockaddr_in6))});
    ep.emit(ev);
  }
  int n = ep.thorough ? 100 : 50;
  for (int k = 0; k < n; ++k) {
    switch (r.range(0, 7)) {
    case 0: { // text
      V x = g.fam();
      std::string s = tg.text(x, r.chance(1, 3));
      int form = r.range(0, 3);
      int p = port();
      if (form == 1 || (form == 2 && x.size() == 8)) s = "[" + s + "]";
      if (form == 2) s += ":" + std::to_string(p);
      if (form == 3) s = x.size() == 8 ? "[" + s + "]:" + std::to_string(p) : s + ":" + (r.chance(1, 6) ? std::to_string(r.range(65530, 70000)) : std::to_string(p));
      if (r.chance(1, 3)) s = tg.mutate(s);
      if (r.chance(1, 30)) s = r.pick(std::vector<std::string>{"", " ", "[", "[]", "[]:80", ":80", ":", "1.2.3.4:", "[::1]:", "[::1]x", "[::1]:80x", "1.2.3.4:80 ", "1.2.3.4:65536", "1.2.3.4:99999999999999999999", "[::1]80", "::1:80", "[1.2.3.4]:80"});
      if (s.size() > 80) s.resize(80);
      Tight t(s);
      ep.pending("srvload " + s);
      Ev ev("srvload");
      ev.t("t", s);
      std::string_view a, b, c;
      bool tk = IPEndpoint::tokenize(t.sv(), &a, &b, &c);
      bool tk2 = IPEndpoint::tokenize(t.sv());
      ev.b("tk", tk).b("tk2", tk2).t("ta", a).t("tp", b).t("tr", c);
      V i4 = g.v4(), i6 = g.v6();
      int p4 = port(), p6 = port();
      IP4Srv s4(mk4(i4), p4);
      IP6Srv s6(mk6(i6), p6);
      bool o4 = s4.load(t.sv()), o6 = s6.load(t.sv());
      ev.b("o4", o4).v("a4", lv(s4.addr())).i("p4", s4.host_order_port()).b("o6", o6).v("a6", lv(s6.addr())).i("p6", s6.host_order_port());
      ev.v("i4", i4).i("j4", p4).v("i6", i6).i("j6", p6);
      bool o = st.s.load(t.sv());
      ev.b("o", o);
      IP4Srv k4{TextView(t.sv())}; IP6Srv k6{TextView(t.sv())};
      ev.v("b4", lv(k4.addr())).i("q4", k4.host_order_port()).v("b6", lv(k6.addr())).i("q6", k6.host_order_port());
      IPSrv cs{TextView(t.sv())};
      ev.v("ca", lv(cs.addr())).i("cp", cs.host_order_port());
      bool eo = st.e.parse(t.sv());
      ev.b("eo", eo);
      IPEndpoint ce(t.sv());
      ev.v("cea", lv(&ce.sa)).i("cep", ce.host_order_port());
      obs(ev, st);
      ep.emit(ev);
    } break;
    case 1: case 2: { // change the service
      V x = g.fam();
      int p = port(), how = r.range(0, 8);
      SA sa(x, p);
      ep.pending("srv");
      Ev ev("srv");
      ev.v("x", x).i("p", p).i("how", how);
      switch (how) {
      case 0: if (x.size() == 2) st.s.assign(mk4(x)); else st.s.assign(mk6(x)); break;
      case 1: st.s.assign(mk(x)); break;
      case 2: st.s.assign(static_cast<in_port_t>(p)); break;
      case 3: if (x.size() == 2) st.s.assign(mk4(x), p); else st.s.assign(mk6(x), p); break;
      case 4: st.s.assign(mk(x), p); break;
      case 5: if (r.chance(1, 2)) st.s.assign(&sa.sa); else st.s = &sa.sa; break;
      case 6: if (x.size() == 2) { if (r.chance(1, 2)) st.s.assign(&sa.s4); else st.s = &sa.s4; } else { if (r.chance(1, 2)) st.s.assign(&sa.s6); else st.s = &sa.s6; } break;
      case 7: if (x.size() == 2) st.s = IP4Srv(mk4(x), p); else st.s = IP6Srv(mk6(x), p); break;
      case 8:
        switch (r.range(0, 4)) {
        case 0: st.s = IPSrv(mk(x), p); break;
        case 1: st.s = IPSrv(&sa.sa); break;
        case 2: st.s = x.size() == 2 ? IPSrv(&sa.s4) : IPSrv(&sa.s6); break;
        case 3: st.s = x.size() == 2 ? IPSrv(mk4(x), p) : IPSrv(mk6(x), p); break;
        case 4: { IPEndpoint tmp(&sa.sa); st.s = IPSrv(tmp); } break;
        }
        break;
      }
      obs(ev, st);
      ep.emit(ev);
    } break;
    case 3: case 4: case 5: { // change the end point
      V x = r.chance(1, 10) ? V{} : g.fam();
      int p = port(), how = r.range(0, 10);
      if (x.empty() && !(how == 1 || how == 3 || how == 4 || how == 10)) x = g.fam();
      SA sa(x, p);
      V xf;
      if (x.size() == 8) {
        xf = {int(r.chance(1, 3) ? 0 : r.range(0, 0xfffff)), int(r.chance(1, 3) ? 0 : r.range(0, 0x7fffffff))};
        sa.s6.sin6_flowinfo = xf[0];
        sa.s6.sin6_scope_id = xf[1];
      }
      ep.pending("ep");
      Ev ev("ep");
      ev.v("x", x).i("p", p).i("how", how).v("xf", xf);
      switch (how) {
      case 0: if (x.size() == 2) st.e.assign(mk4(x)); else st.e.assign(mk6(x)); break;
      case 1: st.e.assign(mk(x)); break;
      case 2: if (x.size() == 2) st.e.assign(IP4Srv(mk4(x), p)); else st.e.assign(IP6Srv(mk6(x), p)); break;
      case 3: st.e.assign(x.empty() ? IPSrv{} : IPSrv(mk(x), p)); break;
      case 4: if (r.chance(1, 2)) st.e.assign(&sa.sa); else { IPEndpoint t2(&sa.sa); st.e = t2; } break;
      case 5: if (x.size() == 2) st.e.assign(&sa.s4); else st.e.assign(&sa.s6); break;
      case 6: if (x.size() == 2) st.e.set_to_any(AF_INET); else st.e.set_to_any(AF_INET6); break;
      case 7: if (x.size() == 2) st.e.set_to_loopback(AF_INET); else st.e.set_to_loopback(AF_INET6); break;
      case 8: if (r.chance(1, 2)) st.e.invalidate(); else IPEndpoint::invalidate(&st.e.sa); break;
      case 9: // change the port in place; self assignment
        if (st.e.is_valid()) IPEndpoint::port(&st.e.sa) = htons(p);
        st.e.assign(static_cast<sockaddr const *>(st.e));
        break;
      case 10: st.e.assign(mk(x), p); break;
      }
      SA back(r.chance(1, 2) ? V{} : g.fam(), port());
      if (r.chance(1, 2)) { back.s6.sin6_flowinfo = r.range(1, 99); back.s6.sin6_scope_id = r.range(1, 99); }
      st.e.copy_to(&back.sa);
      ev.v("bk", lv(&back.sa)).v("bks", parts(&back.sa));
      IPEndpoint cp(st.e), via(IPSrv(st.e)), va{IPAddr(st.e)};
      ev.v("cpa", lv(&cp.sa)).i("cpp", cp.host_order_port()).v("via", lv(&via.sa)).i("vip", via.host_order_port()).v("vaa", lv(&va.sa)).i("vap", va.host_order_port());
      ev.v("cps", parts(&cp.sa)).v("vis", parts(&via.sa)).v("vas", parts(&va.sa));
      obs(ev, st);
      ep.emit(ev);
    } break;
    case 6: { // print
      ep.pending("sprint");
      Ev ev("sprint");
      std::vector<std::string> d{jbytes(prn("{}", st.s))};
      if (st.s.is_ip4()) d.push_back(jbytes(prn("{}", st.s.ip4())));
      if (st.s.is_ip6()) d.push_back(jbytes(prn("{}", st.s.ip6())));
      ev.j("s", jlist(d));
      std::vector<std::string> e{jbytes(prn("{}", st.e)), jbytes(prn("{}", &st.e.sa))};
      if (st.e.is_ip4()) e.push_back(jbytes(prn("{}", &st.e.sa4)));
      if (st.e.is_ip6()) e.push_back(jbytes(prn("{}", &st.e.sa6)));
      ev.j("e", jlist(e)).t("ea_", prn("{::a}", st.e)).t("eap", prn("{::ap}", st.e)).t("ep_", prn("{::p}", st.e)).t("ef", prn("{::f}", st.e)).t("epf", prn("{::pf}", st.e)).t("efull", prn("{::=}", st.e)).t("efp", prn("{::=p}", st.e));
      obs(ev, st);
      ep.emit(ev);
    } break;
    default: { // order and equality
      V x = g.fam(), y = r.chance(1, 2) ? x : g.near(x);
      if (y.empty()) y = g.fam();
      int p = port(), q = r.chance(1, 2) ? p : r.chance(1, 2) ? std::min(65535, p + 1) : port();
      ep.pending("scmp");
      Ev ev("scmp");
      ev.v("x", x).i("p", p).v("y", y).i("q", q);
      IPSrv a(mk(x), p), b(mk(y), q);
      V t, m1, m2, ad;
      auto six = [](auto const &l, auto const &rr) { return V{l < rr, l <= rr, l > rr, l >= rr, l == rr, l != rr}; };
      if (x.size() == y.size()) t = x.size() == 2 ? six(IP4Srv(mk4(x), p), IP4Srv(mk4(y), q)) : six(IP6Srv(mk6(x), p), IP6Srv(mk6(y), q));
      if (y.size() == 2) { m1 = six(a, IP4Srv(mk4(y), q)); m2 = six(IP4Srv(mk4(y), q), a); ad = {a == mk4(y), mk4(y) == a, !(a != mk4(y)), !(mk4(y) != a)}; }
      else { m1 = six(a, IP6Srv(mk6(y), q)); m2 = six(IP6Srv(mk6(y), q), a); ad = {a == mk6(y), mk6(y) == a, !(a != mk6(y)), !(mk6(y) != a)}; }
      ev.v("t", t).v("m1", m1).v("m2", m2).v("ad", ad);
      // typed services, changed in steps
      std::vector<std::string> ts;
      auto typed = [&](auto sv, auto const &ax, auto const &ay, auto const *sk) {
        auto put = [&](auto const &z) { ts.push_back("[" + jints(lv(z.addr())) + "," + jint(z.host_order_port()) + "," + jint(ntohs(z.network_order_port())) + "]"); };
        decltype(sv) d; put(d);
        put(sv);
        sv.assign(ay); put(sv);
        sv.assign(static_cast<in_port_t>(q)); put(sv);
        sv.assign(ax, p); put(sv);
        sv.assign(sk); put(sv);
        decltype(sv) sc(sk); put(sc);
        decltype(sv) only(ax); put(only);
      };
      SA sy(y, q);
      if (x.size() == y.size()) { if (x.size() == 2) typed(IP4Srv(mk4(x), p), mk4(x), mk4(y), &sy.s4); else typed(IP6Srv(mk6(x), p), mk6(x), mk6(y), &sy.s6); }
      ev.j("ts", jlist(ts));
      // narrowing
      IP4Srv n4(a);
      IP6Srv n6(a);
      ev.v("n4", lv(n4.addr())).i("n4p", n4.host_order_port()).v("n6", lv(n6.addr())).i("n6p", n6.host_order_port());
      ep.emit(ev);
    } break;
    }
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [](Ep &ep) {
    if (ep.only == "addr") addr_ops(ep);
    else if (ep.only == "text") text_ops(ep);
    else if (ep.only == "range") range_ops(ep);
    else if (ep.only == "nets") net_ops(ep);
    else if (ep.only == "srv") srv_ops(ep);
  }, 300, 4000);
}
