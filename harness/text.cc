// Recorder for TextView (views, numbers, comparison).
#include "vt.h"
#include "swoc/TextView.h"
#include <cmath>
#include <sstream>
#include <iomanip>
#include <memory>
using namespace swoc;
using vt::Ep;
using vt::Ev;
using vt::jbytes;
using vt::jlist;
using V = std::vector<long>;

/// A text in an exact size heap block, without terminator.
struct Text {
  char *p;
  size_t n;
  explicit Text(std::string_view s) : p(static_cast<char *>(malloc(s.size()))), n(s.size()) { memcpy(p, s.data(), n); }
  ~Text() { free(p); }
  Text(Text const &) = delete;
  TextView tv() const { return TextView(p, n); }
  std::string_view sv() const { return {p, n}; }
};

static std::string any_text(vt::Rng &r, int max) {
  static const std::vector<std::string> ab{"ab,", "aB, ", "a1 ", std::string("a\0b", 3), std::string("\xff\x80z", 3), "\t\n\v\f\r x0"};
  std::string const &al = r.pick(ab);
  std::string s;
  int n = r.range(0, max);
  for (int i = 0; i < n; ++i) s += r.chance(1, 20) ? static_cast<char>(r.range(0, 255)) : al[r.range(0, al.size() - 1)];
  return s;
}

// ---------------------------------------------------------------------------------------------------- views
struct Views {
  Ep &ep;
  std::unique_ptr<Text> t;
  TextView v;
  Views(Ep &e) : ep(e) {}
  V iv(TextView const &x) const {
    if (x.empty()) return {0, 0};
    long d = x.data() - t->p;
    if (d < -1000000 || d > 1000000) d = -999;
    return {d, d + static_cast<long>(x.size() > 1000000 ? 1000000 : x.size())};
  }
  void reset(std::string_view s) {
    t = std::make_unique<Text>(s);
    v = t->tv();
    ep.emit(Ev("reset").t("buf", s));
  }
  void done(Ev &ev, TextView r) { ep.emit(ev.v("r", iv(r)).v("v", iv(v))); }
  void by_n(int m, size_t n, bool as_int) {
    static char const *N[] = {"prefix", "suffix", "remove_prefix", "remove_suffix", "split_prefix", "split_suffix", "take_prefix", "take_suffix"};
    ep.pending(N[m]);
    Ev ev("n");
    ev.s("m", N[m]).i("n", n > 100000 ? 100000 : n);
    TextView r;
    int k = n;
    switch (m) {
    case 0: r = as_int ? v.prefix(k) : v.prefix(n); break;
    case 1: r = as_int ? v.suffix(k) : v.suffix(n); break;
    case 2: r = v.remove_prefix(n); break;
    case 3: r = v.remove_suffix(n); break;
    case 4: r = as_int ? v.split_prefix(k) : v.split_prefix(n); break;
    case 5: r = as_int ? v.split_suffix(k) : v.split_suffix(n); break;
    case 6: r = v.take_prefix(n); break;
    case 7: r = as_int ? v.take_suffix(k) : v.take_suffix(n); break;
    }
    done(ev, r);
  }
  template <typename F> TextView pred(int m, F const &f) {
    switch (m) {
    case 0: return v.prefix_if(f);
    case 1: return v.suffix_if(f);
    case 2: return v.remove_prefix_if(f);
    case 3: return v.remove_suffix_if(f);
    case 4: return v.split_prefix_if(f);
    case 5: return v.split_suffix_if(f);
    case 6: return v.take_prefix_if(f);
    case 7: return v.take_suffix_if(f);
    case 8: return v.ltrim_if(f);
    case 9: return v.rtrim_if(f);
    case 10: return v.trim_if(f);
    case 11: return v.clip_prefix_of(f);
    default: return v.clip_suffix_of(f);
    }
  }
  template <typename S> TextView at(int m, S const &s) {
    switch (m) {
    case 0: return v.prefix_at(s);
    case 1: return v.suffix_at(s);
    case 2: return v.remove_prefix_at(s);
    case 3: return v.remove_suffix_at(s);
    case 4: return v.split_prefix_at(s);
    case 5: return v.split_suffix_at(s);
    case 6: return v.take_prefix_at(s);
    case 7: return v.take_suffix_at(s);
    case 8: return v.ltrim(s);
    case 9: return v.rtrim(s);
    default: return v.trim(s);
    }
  }
  static constexpr int NM = 13;
  static constexpr char const *M[NM] = {"prefix", "suffix", "remove_prefix", "remove_suffix", "split_prefix", "split_suffix", "take_prefix", "take_suffix",
                                        "ltrim", "rtrim", "trim", "clip_prefix", "clip_suffix"};
  /// @a how: 0 character, 1 string_view, 2 functor / CharSet, 3 class predicate, 4 constant predicate, 5 literal
  void by_k(int m, int how, std::string const &cs, int cls) {
    ep.pending(M[m]);
    Ev ev("k");
    ev.s("m", M[m]).i("how", how);
    TextView r;
    if (m > 10 && (how == 0 || how == 1 || how == 5)) how = 2;
    if (how == 5 && m != 8 && m != 10) how = 1;
    switch (how) {
    case 0: {
      char c = cs[0];
      ev.s("k", "c").t("cs", {cs.data(), 1});
      r = at(m, c);
    } break;
    case 1: {
      Text x(cs);
      ev.s("k", "set").t("cs", cs);
      r = at(m, x.sv());
    } break;
    case 2: {
      Text x(cs);
      ev.s("k", "set").t("cs", cs);
      CharSet set{TextView(x.sv())};
      if (m >= 8 && m <= 10) r = m == 8 ? v.ltrim(set) : m == 9 ? v.rtrim(set) : v.trim(set);
      else if (cls % 2) r = pred(m, set);
      else r = pred(m, [&](char c) { return cs.find(c) != std::string::npos; });
    } break;
    case 3:
      ev.s("k", cls == 0 ? "space" : cls == 1 ? "digit" : "alpha").t("cs", {});
      switch (cls) {
      case 0: r = pred(m, [](unsigned char c) -> bool { return isspace(c); }); break;
      case 1: r = pred(m, [](unsigned char c) -> bool { return isdigit(c); }); break;
      default: r = pred(m, [](unsigned char c) -> bool { return isalpha(c); }); break;
      }
      break;
    case 4:
      ev.s("k", cls ? "any" : "none").t("cs", {});
      r = pred(m, [&](char) { return cls != 0; });
      break;
    case 5: { // C string
      std::string z(cs.c_str());
      char const *p = z.c_str();
      ev.s("k", "set").t("cs", z);
      r = m == 8 ? v.ltrim(p) : v.trim(p);
    } break;
    }
    done(ev, r);
  }
  void misc(int which, vt::Rng &r) {
    switch (which) {
    case 0: { ep.pending("++"); TextView &x = ++v; Ev ev("n"); ev.s("m", "remove_prefix").i("n", 1); done(ev, x); } break;
    case 1: { ep.pending("x++"); TextView x = v++; Ev ev("pinc"); done(ev, x); } break;
    case 2: { int n = r.range(0, t->n + 2); ep.pending("+="); TextView &x = (v += n); Ev ev("n"); ev.s("m", "remove_prefix").i("n", n); done(ev, x); } break;
    case 3: { ep.pending("clear"); TextView &x = v.clear(); Ev ev("clear"); done(ev, x); } break;
    case 4: {
      size_t pos = r.range(0, t->n + 2), n = r.chance(1, 4) ? TextView::npos : r.range(0, t->n + 2);
      ep.pending("substr");
      TextView x = n == TextView::npos && r.chance(1, 2) ? v.substr(pos) : v.substr(pos, n);
      Ev ev("substr");
      ev.i("p", pos).i("n", n > 100000 ? 100000 : n);
      done(ev, x);
    } break;
    case 5: {
      ep.pending("observe");
      char c = t->n ? t->p[r.range(0, t->n - 1)] : 'q';
      Ev ev("obs");
      auto f = v.find_if([&](char x) { return x == c; });
      auto l = v.rfind_if([&](char x) { return x == c; });
      ev.i("c", static_cast<unsigned char>(c)).i("f", f == TextView::npos ? -1 : static_cast<long>(f)).i("l", l == TextView::npos ? -1 : static_cast<long>(l));
      ev.i("d", static_cast<unsigned char>(*v)).b("not", !v).b("is", bool(v)).b("e", v.empty()).i("sz", v.size()).i("end", v.data_end() - v.data());
      done(ev, v);
    } break;
    case 6: { // view a part again
      size_t lo = r.range(0, t->n), hi = r.range(lo, t->n);
      Ev ev("assign");
      ev.i("lo", lo).i("hi", hi);
      ep.pending("assign");
      char const *b = t->p + lo, *e = t->p + hi;
      std::string_view sv(b, hi - lo);
      switch (r.range(0, 9)) {
      case 0: v.assign(b, hi - lo); break;
      case 1: v.assign(b, e); break;
      case 2: v.assign(sv); break;
      case 3: v = sv; break;
      case 4: v = TextView(b, hi - lo); break;
      case 5: v = TextView(b, static_cast<int>(hi - lo)); break;
      case 6: v = TextView(b, static_cast<unsigned>(hi - lo)); break;
      case 7: v = TextView(b, static_cast<ssize_t>(hi - lo)); break;
      case 8: v = TextView(b, e); break;
      case 9: { TextView x(sv); v = x; } break;
      }
      done(ev, v);
    } break;
    case 7: { // other sources
      std::string s = any_text(r, 6), c = s.c_str();
      std::vector<char> vec(s.begin(), s.end());
      char a3[3];
      for (int i = 0; i < 3; ++i) a3[i] = i < static_cast<int>(s.size()) ? s[i] : 0;
      char *mp        = c.data();
      char const *cp  = c.c_str();
      char const *nul = nullptr;
      ep.pending("make");
      TextView x;
      x.assign(cp);
      TextView y = cp, z = mp;
      TextView w;
      w = cp;
      TextView q(cp, TextView::npos), q2(cp, -1), q3(cp, ssize_t(-1)), arr(a3), u(nullptr), nn(nul);
      TextView arr2, arr3;
      arr2.assign(a3);
      arr3 = a3;
      TextView m1, m2;
      m1.assign(mp);
      m2 = mp;
      TextView st(s), st2, st3, ve(vec), ve2;
      st2.assign(s);
      st3 = s;
      ve2.assign(vec);
      std::string cstr = jlist({jbytes(x), jbytes(y), jbytes(z), jbytes(w), jbytes(q), jbytes(q2), jbytes(q3), jbytes(m1), jbytes(m2)});
      ep.emit(Ev("make").t("s", s).j("c", cstr).j("a", jlist({jbytes(arr), jbytes(arr2), jbytes(arr3)})).j("w", jlist({jbytes(st), jbytes(st2), jbytes(st3), jbytes(ve), jbytes(ve2)})).i("z", u.size() + nn.size()).v("v", iv(v)));
    } break;
    }
  }
};

static void view_ops(Ep &ep) {
  Views s(ep);
  auto &r    = ep.rng;
  int maxlen = ep.thorough ? 5 : 4;
  long total = 0, k = 1;
  for (int i = 0; i <= maxlen; ++i, k *= 3) total += k;
  if (ep.id < total) { // every method on every short text
    long x = ep.id, base = 1;
    int len = 0;
    while (x >= base) { x -= base; base *= 3; ++len; }
    std::string text;
    for (int i = 0; i < len; ++i, x /= 3) text += "a, "[x % 3];
    auto one = [&](auto &&f) { s.reset(text); f(); };
    for (int m = 0; m < 8; ++m)
      for (int n = 0; n <= len + 2; ++n) one([&] { s.by_n(m, n > len + 1 ? size_t(1) << 40 : n, n <= len && n % 2); });
    for (int m = 0; m < Views::NM; ++m) {
      one([&] { s.by_k(m, 0, ",", 0); });
      one([&] { s.by_k(m, 1, ",", 0); });
      one([&] { s.by_k(m, 1, ", ", 0); });
      one([&] { s.by_k(m, 1, "", 0); });
      one([&] { s.by_k(m, 2, "a,", 0); });
      one([&] { s.by_k(m, 2, ",", 1); });
      one([&] { s.by_k(m, 3, "", 0); });
      one([&] { s.by_k(m, 4, "", 0); });
      one([&] { s.by_k(m, 4, "", 1); });
      if (m == 8 || m == 10) one([&] { s.by_k(m, 5, "a ", 0); });
    }
    return;
  }
  for (int rep = 0; rep < 4; ++rep) {
    s.reset(any_text(r, r.chance(1, 5) ? 60 : 14));
    int steps = r.range(4, 16);
    for (int i = 0; i < steps; ++i) {
      std::string cs;
      int nc = r.range(1, 3);
      for (int j = 0; j < nc; ++j) cs += s.t->n && r.chance(5, 6) ? s.t->p[r.range(0, s.t->n - 1)] : static_cast<char>(r.range(0, 255));
      switch (r.range(0, 9)) {
      case 0: case 1: case 2: { int n = r.range(0, s.v.size() + 1); s.by_n(r.range(0, 7), n, r.chance(1, 2)); } break;
      case 3: case 4: case 5: case 6: s.by_k(r.range(0, 12), r.range(0, 5), r.chance(1, 12) ? cs + std::string(1, '\0') : cs, r.range(0, 2)); break;
      default: s.misc(r.range(0, 7), r); break;
      }
    }
  }
}

// ---------------------------------------------------------------------------------------------------- numbers
template <int R> static uintmax_t radix_of(TextView &v, bool rv) {
  if (!rv) return svto_radix<R>(v);
  return svto_radix<R>(TextView(v));
}
static uintmax_t radix(int b, TextView &v, bool rv) {
  switch (b) {
#define RX(n) case n: return radix_of<n>(v, rv);
  RX(2) RX(3) RX(4) RX(5) RX(6) RX(7) RX(8) RX(9) RX(10) RX(11) RX(12) RX(13) RX(14) RX(15) RX(16) RX(17) RX(18) RX(19) RX(20) RX(21) RX(22) RX(23) RX(24)
  RX(25) RX(26) RX(27) RX(28) RX(29) RX(30) RX(31) RX(32) RX(33) RX(34) RX(35) RX(36)
#undef RX
  }
  return 0;
}

static std::string number_text(vt::Rng &r, int base) {
  std::string s;
  int nsp = r.chance(1, 4) ? r.range(1, 3) : 0;
  for (int i = 0; i < nsp; ++i) s += " \t\n\v\f\r"[r.range(0, 5)];
  static char const *PRE[] = {"", "", "", "-", "+", "0", "0x", "0X", "0b", "0B", "-0x", "+0b", "-0", "--", "+-", "00"};
  s += PRE[r.range(0, 15)];
  int b = base >= 2 && base <= 36 ? base : r.chance(1, 3) ? 16 : r.chance(1, 2) ? 8 : 10;
  static char const *DL = "0123456789abcdefghijklmnopqrstuvwxyz", *DU = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  switch (r.range(0, 3)) {
  case 0: case 1: { // digits, sometimes at the edge of the base
    int n = r.chance(1, 5) ? r.range(10, 70) : r.range(0, 8);
    for (int i = 0; i < n; ++i) s += (r.chance(1, 2) ? DL : DU)[r.chance(1, 25) ? r.range(0, 35) : r.chance(1, 5) ? b - 1 : r.range(0, b - 1)];
  } break;
  case 2: { // near the limits
    static const uint64_t L[] = {UINT64_MAX, uint64_t(INT64_MAX), uint64_t(1) << 63, uint64_t(1) << 32, 0};
    unsigned __int128 v = L[r.range(0, 4)];
    int d = r.range(-2, 2);
    if (!(v == 0 && d < 0)) v += d;
    if (r.chance(1, 8)) v *= 37;
    std::string t;
    do { t.insert(t.begin(), DL[static_cast<int>(v % b)]); v /= b; } while (v);
    s += t;
  } break;
  case 3: { int n = r.range(0, 5); for (int i = 0; i < n; ++i) s += static_cast<char>(r.range(0, 255)); } break;
  }
  if (r.chance(1, 3)) s += r.chance(1, 2) ? std::string(1, static_cast<char>(r.range(0, 255))) : std::string(r.chance(1, 2) ? " 1" : ".5");
  return s;
}

static std::string off(TextView const &p, Text const &t) {
  if (p.empty()) return vt::jints(V{0, 0});
  return vt::jints(V{p.data() - t.p, p.data_end() - t.p});
}

static std::string float_text(vt::Rng &r, bool th) {
  std::string s;
  static char const *SG[] = {"", "", "", "-", "+"};
  s += SG[r.range(0, 4)];
  auto digs = [&](int n) { for (int i = 0; i < n; ++i) s += static_cast<char>('0' + (r.chance(1, 6) ? 0 : r.chance(1, 6) ? 9 : r.range(0, 9))); };
  int w = r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.range(10, 40) : r.range(1, 8);
  digs(w);
  if (r.chance(2, 3)) {
    s += '.';
    if (r.chance(1, 6)) s += std::string(r.range(1, 20), '0');
    digs(r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.range(10, 40) : r.range(1, 8));
  }
  if (r.chance(1, 2)) {
    s += r.chance(1, 2) ? 'e' : 'E';
    static char const *ES[] = {"", "-", "+"};
    s += ES[r.range(0, 2)];
    switch (r.range(0, 6)) {
    case 0: case 1: case 2: case 3: s += std::to_string(r.range(0, 40)); break;
    case 4: s += std::to_string(r.range(0, th ? 330 : 120)); break;
    case 5: s += std::to_string(r.range(280, 330)); break;
    case 6: if (r.chance(1, 3)) s += r.chance(1, 2) ? "99999999999999999999" : std::to_string(r.range(331, 100000)); else s += std::to_string(r.range(0, 9)); break;
    }
  }
  if (r.chance(1, 4)) s += r.chance(1, 2) ? " x" : r.chance(1, 2) ? "." : std::string(1, static_cast<char>(r.range(0, 255)));
  if (r.chance(1, 12)) { s.clear(); int n = r.range(0, 4); for (int i = 0; i < n; ++i) s += ".-+e1 "[r.range(0, 5)]; }
  return s;
}

static void number_ops(Ep &ep) {
  auto &r = ep.rng;
  if (ep.id == 0) { // the digit table
    V t;
    for (int i = 0; i < 256; ++i) t.push_back(svtoi_convert[i]);
    ep.emit(Ev("table").v("t", t));
  }
  for (int i = 0; i < 12; ++i) {
    static const std::vector<int> BASES{0, 0, 0, 0, 10, 16, 8, 2, 36, 1, 3, 7, 11, 12, 35, 37, -1, 100};
    int base = r.chance(1, 5) ? r.range(2, 36) : r.pick(BASES);
    Text t(number_text(r, base));
    Ev ev("int");
    ep.pending("int " + std::to_string(base));
    TextView p1("junk"), p2("junk");
    intmax_t a   = svtoi(t.tv(), &p1, base), a2 = base == 0 ? svtoi(t.tv()) : svtoi(t.tv(), nullptr, base);
    uintmax_t u  = svtou(t.tv(), &p2, base), u2 = base == 0 ? svtou(t.tv()) : svtou(t.tv(), nullptr, base);
    ev.t("s", t.sv()).i("b", base).b("neg", a < 0).u64("a", a < 0 ? uint64_t(0) - uint64_t(a) : uint64_t(a)).j("p", off(p1, t)).u64("u", u).j("q", off(p2, t)).b("same", a == a2 && u == u2);
    ep.emit(ev);
    int rb = r.range(2, 36);
    Text w(number_text(r, rb));
    TextView v = w.tv();
    ep.pending("radix");
    auto x2 = radix(rb, v, true);
    auto x  = radix(rb, v, false);
    ep.emit(Ev("radix").t("s", w.sv()).i("b", rb).u64("u", x).b("same", x == x2).i("n", v.data() - w.p).i("left", v.size()));
  }
  for (int i = 0; i < 4; ++i) {
    Text t(float_text(r, ep.thorough));
    ep.pending("float");
    TextView p("junk");
    double d = svtod(t.tv(), &p), d2 = svtod(t.tv());
    int e    = 0;
    bool inf = std::isinf(d), nan = std::isnan(d);
    uint64_t m = 0;
    if (!inf && !nan && d != 0) {
      double f = std::frexp(std::fabs(d), &e); // in [0.5,1)
      m        = static_cast<uint64_t>(std::ldexp(f, 53));
      e       -= 53;
    }
    ep.emit(Ev("float").t("s", t.sv()).b("neg", std::signbit(d)).b("inf", inf).b("nan", nan).u64("m", m).i("e", e).j("p", off(p, t)).b("same", d == d2 || (nan && std::isnan(d2))));
  }
}

// ---------------------------------------------------------------------------------------------------- comparison
static void compare_ops(Ep &ep) {
  auto &r = ep.rng;
  std::vector<std::string> small;
  if (ep.id < 40) { // all pairs of short texts, by shard
    std::vector<std::string> all{""};
    for (size_t i = 0; i < all.size() && all[i].size() < 3; ++i)
      for (char c : std::string("aA\0\xe1", 4)) all.push_back(all[i] + c);
    small = all;
  }
  auto one = [&](std::string const &as, std::string const &bs) {
    Text at(as), bt(bs);
    TextView a = at.tv(), b = bt.tv();
    ep.pending("cmp");
    std::string_view sa = a, sb = b;
    Ev ev("cmp");
    ev.t("a", as).t("b", bs);
    V cs{memcmp(a, b), strcmp(a, b), ::memcmp(sa, sb), ::strcmp(sa, sb)};
    V ci{strcasecmp(a, b), ::strcasecmp(sa, sb)};
    ev.v("cs", cs).v("ci", ci);
    ev.v("rel", V{a == b, a != b, a < b, a <= b, a > b, a >= b, TextView::LessThan()(a, b), TextView::LessThanNoCase()(a, b), TextView::CaselessEqual()(a, b)});
    ev.b("hash", std::hash<TextView>()(a) == std::hash<TextView>()(TextView(std::string(as))) && std::hash<TextView>()(a) == std::hash<std::string_view>()(sa));
    ev.v("sw", V{a.starts_with(b), a.starts_with_nocase(b), a.ends_with(b), a.ends_with_nocase(b)});
    ev.v("swz", V{a.starts_with(bs.c_str()), a.starts_with_nocase(bs.c_str()), a.ends_with(bs.c_str()), a.ends_with_nocase(bs.c_str())});
    { // copy the content
      std::string d(as.size() + 2, '#');
      void *ret = ::memcpy(d.data() + 1, sa);
      ev.b("mcp", ret == d.data() + 1 && d == "#" + as + "#");
    }
    char c = bs.empty() ? 'a' : bs[0];
    ev.i("c", static_cast<unsigned char>(c)).v("swc", V{a.starts_with(c), a.starts_with_nocase(c), a.ends_with(c), a.ends_with_nocase(c)});
    ep.emit(ev);
  };
  if (!small.empty()) {
    for (size_t i = ep.id; i < small.size(); i += 40)
      for (auto const &b : small) if (ep.thorough || b.size() < 3 || small[i].size() < 3 ? (ep.thorough || r.chance(1, 3) || b.size() + small[i].size() < 4) : r.chance(1, 8)) one(small[i], b);
    return;
  }
  for (int i = 0; i < 10; ++i) {
    std::string a = any_text(r, 12), b = any_text(r, 12);
    switch (r.range(0, 5)) {
    case 0: b = a; break;
    case 1: b = a.substr(0, r.range(0, a.size())); break;
    case 2: b = a.substr(a.size() - r.range(0, a.size())); break;
    case 3: b = a; for (auto &c : b) if (r.chance(1, 2)) c = isupper(static_cast<unsigned char>(c)) ? tolower(c) : isalpha(static_cast<unsigned char>(c)) ? toupper(c) : c; break;
    case 4: b = a; if (!b.empty()) b[r.range(0, b.size() - 1)] = r.range(0, 255); break;
    case 5: if (r.chance(1, 2)) std::swap(a, b = a + b); break;
    }
    one(a, b);
  }
  // sets of characters, transformed views
  std::string s = any_text(r, 10), cs = any_text(r, 5);
  Text st(s), ct(cs);
  CharSet set{ct.tv()};
  V m;
  for (int i = 0; i < 256; ++i) {
    bool x = set(static_cast<char>(i)), y = set(static_cast<unsigned char>(i));
    if (x != y) m.push_back(-1);
    if (x) m.push_back(i);
  }
  ep.emit(Ev("charset").t("s", cs).v("m", m));
  ep.pending("transform");
  auto up   = [](char c) -> char { return static_cast<char>(c + 1); };
  std::string o1, o2, o3, o4, o5;
  size_t lim = s.size() + 5;
  auto xv = transform_view_of(up, st.tv());
  for (auto c : xv) { if (o1.size() > lim) break; o1 += c; }
  auto xs = transform_view_of(up, st.sv());
  for (auto p = xs; p; ++p) { if (o2.size() > lim) break; o2 += *p; }
  for (auto p = xs.begin(); p != xs.end(); p++) { if (o3.size() > lim) break; o3 += *p; }
  auto iv = transform_view_of(st.tv());
  for (auto c : iv) { if (o4.size() > lim) break; o4 += c; }
  auto is = transform_view_of(st.sv());
  for (; !is.empty();) { if (o5.size() > lim) break; o5 += *is++; }
  ep.emit(Ev("xform").t("s", s).j("x", jlist({jbytes(o1), jbytes(o2), jbytes(o3)})).j("y", jlist({jbytes(o4), jbytes(o5)})).v("e", V{xv.begin() == xv.end(), !bool(xs), xs.empty(), is == is.end(), !(is != is.end())}));
  // stream output
  int w = r.range(0, 24), left = r.range(0, 2);
  char fill = r.chance(1, 2) ? ' ' : '*';
  ep.pending("stream");
  std::ostringstream os;
  os << "[" << std::setw(w) << std::setfill(fill);
  if (left == 0) os << std::left;
  else if (left == 1) os << std::right;
  os << st.tv();
  os << "]";
  ep.emit(Ev("stream").t("s", s).i("w", w).b("left", left == 0).i("fill", fill).t("o", os.str()));
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [](Ep &ep) {
    if (ep.only == "views") view_ops(ep);
    else if (ep.only == "numbers") number_ops(ep);
    else if (ep.only == "compare") compare_ops(ep);
  }, 300, 4000);
}
