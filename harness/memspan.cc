// Conformance driver for swoc::MemSpan.
#include "vt.h"
#include "swoc/MemSpan.h"
#include <array>
#include <map>
#include <memory>
#include <string>
#include <variant>
#include <vector>
using namespace vt;
using swoc::MemSpan;
template <typename T> struct Box { T *p; size_t n; T *data() const { return p; } size_t size() const { return n; } };
using Any = std::variant<MemSpan<char>, MemSpan<char const>, MemSpan<uint16_t>, MemSpan<uint16_t const>, MemSpan<int32_t>, MemSpan<int32_t const>, MemSpan<uint64_t>, MemSpan<void>, MemSpan<void const>>;
template <typename S> using E = typename S::value_type;
template <typename S> constexpr bool is_void = std::is_void_v<E<S>>;
template <typename S> constexpr bool is_con = std::is_const_v<E<S>>;
template <typename S> constexpr size_t width() { if constexpr (is_void<S>) return 1; else return sizeof(E<S>); }
constexpr int REGS = 5;
struct Counted {
  static inline int live = 0, made = 0;
  static inline std::vector<int> ids;
  std::string s; int id;
  Counted(std::string a) : s(std::move(a)), id(made++) { ++live; ids.push_back(id); }
  ~Counted() { --live; }
};

struct Drive {
  Ep &ep; Rng &r;
  std::unique_ptr<char[]> raw; char *m; int size; int base;
  std::vector<Any> reg{REGS};
  Drive(Ep &e) : ep(e), r(e.rng) {
    size = r.range(1, ep.thorough ? 48 : 32);
    raw.reset(new char[size]);  // the allocator aligns to 16.
    m = raw.get();
    bool few = r.chance(1, 2);
    for (int i = 0; i < size; ++i) m[i] = few ? r.range(0, 1) : r.range(0, 255);
    base = uintptr_t(m) % 256;
    Ev ev("start"); ev.t("mem", {m, size_t(size)}).i("base", base).i("regs", REGS); ep.emit(ev);
  }
  long off(void const *p) { return p ? static_cast<char const *>(p) - m : -1; }
  template <typename S> std::string obs(S const &s) {
    void const *b = s.data(), *e = s.data_end();
    bool agree = s.count() == s.size() && s.length() == s.size() && (!s) == s.empty() && bool(s) == !s.empty();
    if constexpr (!is_void<S>) agree = agree && s.begin() == s.data() && s.end() == s.data_end();
    auto [tp, tn] = s;
    agree = agree && tp == s.data() && tn == s.size();
    return Rec().i("p", off(b)).i("e", off(e)).i("n", s.size()).i("bytes", s.data_size()).b("empty", s.empty()).i("w", width<S>()).b("agree", agree).str();
  }
  template <typename S> S make(std::string &how, long p, long n, bool &lit) {
    using T = E<S>;
    using P = std::conditional_t<is_void<S>, std::conditional_t<is_con<S>, void const, void>, T>;
    P *a = reinterpret_cast<std::conditional_t<std::is_const_v<P>, char const, char> *>(m + p) ? static_cast<P *>(static_cast<void *>(m + p)) : nullptr;
    P *z = static_cast<P *>(static_cast<void *>(m + p + n * width<S>()));
    S s;
    switch (r.range(0, 7)) {
    case 0: how = "pn"; { S t(a, n); s = t; } break;
    case 1: how = "range"; { S t(a, z); s = t; } break;
    case 2: how = "assign"; s.assign(a, n); break;
    case 3: how = "assign2"; s.assign(a, z); break;
    case 4: how = "box";
      if constexpr (is_void<S>) {
        if constexpr (is_con<S>) { Box<char const> b{m + p, size_t(n)}; s = S(b); }
        else { Box<char> b{m + p, size_t(n)}; s = S(b); }
      } else { if (r.chance(1, 2)) { Box<T> b{a, size_t(n)}; s = S(b); } else { Box<T> const b{a, size_t(n)}; s = S(b); } }
      break;
    case 5: how = "null"; if (r.chance(1, 2)) s = S(nullptr); else s = S{}; break;
    case 6: // arrays
      if constexpr (!is_void<S>) {
        if (n == 5) { how = "array"; s = S(*reinterpret_cast<T(*)[5]>(m + p)); lit = std::is_same_v<T, char const>; }
        else if (n == 3) { how = "stdarray"; if constexpr (is_con<S>) { s = S(*reinterpret_cast<std::array<std::remove_const_t<T>, 3> const *>(m + p)); } else s = S(*reinterpret_cast<std::array<T, 3> *>(m + p)); }
        else { how = "pn"; s = S(a, n); }
      } else {
        if (n == 5) { how = "array"; if constexpr (is_con<S>) { lit = true; s = S(*reinterpret_cast<char const(*)[5]>(m + p)); } else s = S(*reinterpret_cast<char(*)[5]>(m + p)); }
        else if (n == 6) { how = "array6"; s = S(*reinterpret_cast<uint16_t(*)[3]>(m + p)); }
        else if (n == 8) { how = "box2"; if constexpr (is_con<S>) { Box<int32_t const> b{reinterpret_cast<int32_t const *>(m + p), 2}; s = S(b); } else { Box<int32_t> b{reinterpret_cast<int32_t *>(m + p), 2}; s = S(b); } }
        else { how = "pn"; s = S(a, n); }
      }
      break;
    default: { how = "pn"; S t(a, n); S u(t); s = u; } break;
    }
    return s;
  }
  template <int K = 0> void fresh(int i, int which) {
    if constexpr (K < std::variant_size_v<Any>) {
      if (K != which) return fresh<K + 1>(i, which);
      using S = std::variant_alternative_t<K, Any>;
      long w = width<S>(), slots = size / w;
      long o = r.range(0, slots), n = r.range(0, slots - o);
      if (r.chance(1, 4)) { static const int some[] = {3, 5, 6, 8}; n = some[r.range(0, 3)]; if (n > slots) return; o = r.range(0, slots - n); }
      std::string how; bool lit = false;
      S s = make<S>(how, o * w, n, lit);
      reg[i].template emplace<S>(s);
      Ev ev("set"); ev.i("i", i + 1).s("how", how).i("p", o * w).i("n", n).i("w", w).b("lit", lit).j("o", obs(s)); ep.emit(ev);
    }
  }
  template <typename S, typename T> static constexpr bool converts() { // S -> T implicitly, as documented
    if constexpr (std::is_same_v<S, T>) return true;
    else if constexpr (is_void<T>) return is_con<T> || !is_con<S>;
    else if constexpr (is_void<S>) return false;
    else return std::is_same_v<std::remove_const_t<E<S>>, std::remove_const_t<E<T>>> && (is_con<T> || !is_con<S>);
  }
  template <int K = 0> void conv(int j, int i, int which) {
    if constexpr (K < std::variant_size_v<Any>) {
      if (K != which) return conv<K + 1>(j, i, which);
      using T = std::variant_alternative_t<K, Any>;
      std::visit([&](auto s) {
        using S = decltype(s);
        if constexpr (converts<S, T>()) {
          T t;
          switch (r.range(0, 2)) { case 0: { T u(s); t = u; break; } case 1: t = s; break; default: { T u = s; t = u; } }
          reg[i].template emplace<T>(t);
          Ev ev("conv"); ev.i("i", i + 1).i("j", j + 1).b("void", is_void<T>).j("o", obs(t)); ep.emit(ev);
        }
      }, reg[j]);
    }
  }
  template <int K = 0> void rebind(int j, int i, int which) {
    if constexpr (K < std::variant_size_v<Any>) {
      if (K != which) return rebind<K + 1>(j, i, which);
      using T = std::variant_alternative_t<K, Any>;
      std::visit([&](auto s) {
        using S = decltype(s);
        if constexpr (is_con<T> || !is_con<S>) {
          if (uintptr_t(static_cast<void const *>(s.data())) % width<T>()) return;
          bool thr = false;
          T t;
          try {
            if constexpr (is_void<T> && !is_void<S> && is_con<S> == is_con<T>) { if (r.chance(1, 2)) t = s.rebind(); else t = s.template rebind<E<T>>(); }
            else t = s.template rebind<E<T>>();
          } catch (std::invalid_argument const &) { thr = true; }
          Ev ev("rebind"); ev.i("i", i + 1).i("j", j + 1).i("w", width<T>()).b("thr", thr);
          if (!thr) { reg[i].template emplace<T>(t); ev.j("o", obs(t)); }
          ep.emit(ev);
        }
      }, reg[j]);
    }
  }
  std::string mem_now() { return jbytes({m, size_t(size)}); }
  template <typename S> void op(S &s, int i) {
    using T = E<S>;
    int k = r.range(0, REGS - 1);
    long n = s.size() ? r.range(0, s.size() + 1) : r.range(0, 2);
    if (r.chance(1, 20)) n = 1000000;
    if (r.chance(1, 40)) n = 2147483647;
    size_t un = n;
    if (n == 2147483647) un = ~size_t(0); // clipped the same way.
    auto out = [&](Ev &ev, S const &t) { ev.i("k", k + 1).j("o", obs(s)).j("o2", obs(t)); };
    switch (r.range(0, 17)) {
    case 0: { if (k == i) return; S t = s.prefix(un); if constexpr (!is_void<S>) if (r.chance(1, 2)) t = s.first(un);
      Ev ev("part"); ev.i("i", i + 1).s("f", "prefix").i("n", n); out(ev, t); reg[k].template emplace<S>(t); ep.emit(ev); break; }
    case 1: { if (k == i) return; S t = s.suffix(un); if constexpr (!is_void<S>) if (r.chance(1, 2)) t = s.last(un);
      Ev ev("part"); ev.i("i", i + 1).s("f", "suffix").i("n", n); out(ev, t); reg[k].template emplace<S>(t); ep.emit(ev); break; }
    case 2: { if (k == i) return; long o = r.range(0, s.size() + 1); S t = s.subspan(o, un);
      Ev ev("part"); ev.i("i", i + 1).s("f", "sub").i("off", o).i("n", n); out(ev, t); reg[k].template emplace<S>(t); ep.emit(ev); break; }
    case 3: { if (k == i) return; S t = s.clip_prefix(un); Ev ev("clip"); ev.i("i", i + 1).s("f", "prefix").i("n", n); out(ev, t); reg[k].template emplace<S>(t); ep.emit(ev); break; }
    case 4: { if (k == i) return; S t = s.clip_suffix(un); Ev ev("clip"); ev.i("i", i + 1).s("f", "suffix").i("n", n); out(ev, t); reg[k].template emplace<S>(t); ep.emit(ev); break; }
    case 5: { auto &t = s.remove_prefix(un); if (&t != &s) throw std::logic_error("remove_prefix"); Ev ev("cut"); ev.i("i", i + 1).s("f", "prefix").i("n", n).j("o", obs(s)); ep.emit(ev); break; }
    case 6: { auto &t = s.remove_suffix(un); if (&t != &s) throw std::logic_error("remove_suffix"); Ev ev("cut"); ev.i("i", i + 1).s("f", "suffix").i("n", n).j("o", obs(s)); ep.emit(ev); break; }
    case 7: if constexpr (!is_void<S>) { auto &t = s.restrict(un); if (&t != &s) throw std::logic_error("restrict"); Ev ev("cut"); ev.i("i", i + 1).s("f", "restrict").i("n", n).j("o", obs(s)); ep.emit(ev); } break;
    case 8: if (r.chance(1, 6)) { s.clear(); Ev ev("cut"); ev.i("i", i + 1).s("f", "clear").i("n", 0).j("o", obs(s)); ep.emit(ev); } break;
    case 9:
      if constexpr (is_void<S>) { // align
        if (!s.data() || k == i) return;
        long a = 1 << r.range(0, 6), sz = 1;
        S t;
        switch (r.range(0, 4)) {
        case 0: t = s.align(a); break;
        case 1: sz = a * r.range(1, 3); t = s.align(a, sz); break;
        case 2: a = sz = 4; t = s.template align<int32_t>(); break;
        case 3: struct X { double d[2]; }; a = 8; sz = 16; t = s.template align<X>(); break;
        default: a = 2; sz = 6; struct Y { uint16_t d[3]; }; t = s.template align<Y>(); break;
        }
        Ev ev("part"); ev.i("i", i + 1).s("f", "align").i("a", a).i("n", sz); out(ev, t);
        if (t.empty()) t.clear(), t.assign(m, size_t(0)); // it may start past the end of the memory.
        reg[k].template emplace<S>(t); ep.emit(ev);
        if (t.empty()) { Ev e2("set"); e2.i("i", k + 1).s("how", "pn").i("p", 0).i("n", 0).i("w", 1).b("lit", false).j("o", obs(t)); ep.emit(e2); }
      } else if (!s.empty()) { // element access
        long x = r.range(0, s.size() - 1); int f = r.range(0, 2);
        if (f == 1) x = 0; if (f == 2) x = s.size() - 1;
        T &e = f == 0 ? s[x] : f == 1 ? s.front() : s.back();
        Ev ev("at"); ev.i("i", i + 1).i("n", x).t("r", {reinterpret_cast<char const *>(&e), sizeof(T)}); ep.emit(ev);
      }
      break;
    case 10:
      if constexpr (!is_void<S>) { std::string all; if (r.chance(1, 2)) for (auto const &e : s) all.append(reinterpret_cast<char const *>(&e), sizeof e); else s.apply([&](T &e) { all.append(reinterpret_cast<char const *>(&e), sizeof e); });
        Ev ev("walk"); ev.i("i", i + 1).t("r", all); ep.emit(ev); }
      break;
    case 11: { long p = r.range(0, size / width<S>()) * width<S>(); auto q = static_cast<E<S> const *>(static_cast<void const *>(m + p)); Ev ev("contains"); ev.i("i", i + 1).i("p", p).b("r", s.contains(q)); ep.emit(ev); break; }
    case 12: { // compare with other memory, of almost the same content
      long extra = r.chance(1, 2) ? (r.chance(1, 3) ? 1 : -1) : 0;
      long cnt = long(s.size()) + extra;
      if (cnt < 0) return;
      size_t nb = cnt * width<S>();
      std::unique_ptr<uint64_t[]> al(new uint64_t[nb / 8 + 1]); // exact to the last element below.
      std::unique_ptr<char[]> exact(new char[nb + 1]);
      char *b = width<S>() == 8 ? reinterpret_cast<char *>(al.get()) : exact.get();
      for (size_t q = 0; q < nb; ++q) b[q] = q < s.data_size() ? static_cast<char const *>(static_cast<void const *>(s.data()))[q] : 0;
      if (nb && r.chance(1, 2)) { size_t q = r.chance(1, 2) ? nb - 1 : r.range(0, nb - 1); b[q] = r.chance(1, 2) ? b[q] + 1 : b[q] ^ 0x80; }
      S t(static_cast<std::conditional_t<is_void<S>, std::conditional_t<is_con<S>, void const, void>, T> *>(static_cast<void *>(b)), size_t(cnt));
      bool flip = r.chance(1, 2);
      int c = flip ? -memcmp(t, s) : memcmp(s, t);
      Ev ev("cmpx"); ev.i("i", i + 1).t("b", {b, nb}).b("eq", flip ? t == s : s == t).b("ne", flip ? t != s : s != t).b("same", s.is_same(t)).i("cmp", c < 0 ? -1 : c > 0 ? 1 : 0); ep.emit(ev);
      break;
    }
    case 13: { // compare, often with equal content
      if (!std::holds_alternative<S>(reg[k])) { if (k == i) return; reg[k].template emplace<S>(s); Ev ev("conv"); ev.i("i", k + 1).i("j", i + 1).b("void", is_void<S>).j("o", obs(s)); ep.emit(ev); }
      S &t = std::get<S>(reg[k]);
      int c = r.chance(1, 2) ? memcmp(s, t) : memcmp(static_cast<S const &>(s), t);
      Ev ev("cmp"); ev.i("i", i + 1).i("j", k + 1).b("eq", s == t).b("ne", s != t).b("same", s.is_same(t)).i("cmp", c < 0 ? -1 : c > 0 ? 1 : 0); ep.emit(ev);
      break;
    }
    case 14:
      if constexpr (is_void<S>) {
        if (!s.data()) return;
        S t(s);
        void const *p = nullptr; bool thr = false; long w = 1 << r.range(0, 3);
        if (s.size() >= size_t(w) && r.chance(2, 3)) { s = s.prefix(w); Ev ev("cut"); ev.i("i", i + 1).s("f", "suffix").i("n", t.size() - w).j("o", obs(s)); ep.emit(ev); }
        if (uintptr_t(s.data()) % w) return;
        try { p = w == 1 ? static_cast<void const *>(s.template as_ptr<char>()) : w == 2 ? static_cast<void const *>(s.template as_ptr<uint16_t>()) : w == 4 ? static_cast<void const *>(s.template as_ptr<int32_t>()) : static_cast<void const *>(s.template as_ptr<uint64_t>()); } catch (std::invalid_argument const &) { thr = true; }
        Ev ev("asptr"); ev.i("i", i + 1).i("w", w).b("thr", thr).i("r", thr ? -1 : off(p)); ep.emit(ev);
      } else if constexpr (!is_con<S>) {
        if (s.empty()) return;
        if (r.chance(1, 2)) { auto &t = s.apply([](T &e) { auto *b = reinterpret_cast<unsigned char *>(&e); ++*b; }); if (&t != &s) throw std::logic_error("apply"); Ev ev("apply"); ev.i("i", i + 1).j("mem", mem_now()); ep.emit(ev); }
        else { long x = r.range(0, s.size() - 1); T v = T(r.next()); s[x] = v; Ev ev("store"); ev.i("i", i + 1).i("n", x).t("b", {reinterpret_cast<char *>(&v), sizeof v}).j("mem", mem_now()); ep.emit(ev); }
      }
      break;
    case 15:
      if constexpr (!is_con<S>) { // fill
        if (!s.data()) return;
        Ev ev("fill"); ev.i("i", i + 1);
        if constexpr (is_void<S>) { char c = r.range(0, 255); memset(s, c); ev.t("b", {&c, 1}); }
        else { T v = T(r.next()); memset(s, v); ev.t("b", {reinterpret_cast<char *>(&v), sizeof v}); }
        ev.j("mem", mem_now()); ep.emit(ev);
      }
      break;
    default: // copy
      if constexpr (!is_con<S>) {
        if (!s.data()) return;
        Ev ev("copy"); ev.i("i", i + 1);
        int f = r.range(0, 3);
        if (f == 0) {
          if (!std::holds_alternative<S>(reg[k])) return;
          S &t = std::get<S>(reg[k]);
          if (!t.data()) return;
          auto a = off(s.data()), b = off(t.data()); long la = s.data_size(), lb = t.data_size();
          if (a < b + lb && b < a + la) return; // overlapping memory is not supported
          if (memcpy(s, t) != s.data()) throw std::logic_error("memcpy result");
          ev.s("f", "span").i("j", k + 1);
        } else if (f == 1) {
          if constexpr (is_void<S> || std::is_same_v<T, char>) {
            std::string text; int len = r.range(0, 40); for (int q = 0; q < len; ++q) text += char(r.range(0, 255));
            std::unique_ptr<char[]> exact(new char[text.size() ? text.size() : 1]); memcpy(exact.get(), text.data(), text.size());
            if (memcpy(s, std::string_view{exact.get(), text.size()}) != s.data()) throw std::logic_error("memcpy result");
            ev.s("f", "text").t("b", text);
          } else return;
        } else if (f == 2) {
          size_t nb = s.data_size();
          std::unique_ptr<uint64_t[]> al(new uint64_t[nb / 8 + 1]); char *src = reinterpret_cast<char *>(al.get()); for (size_t q = 0; q < nb; ++q) src[q] = r.range(0, 255);
          std::string text(src, nb);
          if constexpr (is_void<S>) { if (memcpy(s, static_cast<void *>(src)) != s.data()) throw std::logic_error("memcpy result"); }
          else if (memcpy(s, reinterpret_cast<T *>(src)) != s.data()) throw std::logic_error("memcpy result");
          ev.s("f", "ptr").t("b", text);
        } else {
          size_t nb = s.data_size();
          std::unique_ptr<char[]> exact(new char[nb ? nb : 1]);
          if constexpr (is_void<S>) memcpy(static_cast<void *>(exact.get()), s); else memcpy(reinterpret_cast<T *>(exact.get()), s);
          ev.s("f", "out").t("r", {exact.get(), nb});
        }
        ev.j("mem", mem_now()); ep.emit(ev);
      }
      break;
    }
  }
  void objects() {
    int n = r.range(0, 6);
    std::string arg(r.chance(1, 2) ? 40 : 3, 'a' + r.range(0, 9));
    auto mem = std::make_unique<char[]>(n * sizeof(Counted) + 1);
    auto s = MemSpan<void>(mem.get(), n * sizeof(Counted)).rebind<Counted>();
    Counted::live = Counted::made = 0; Counted::ids.clear();
    std::string copy(arg);
    switch (r.range(0, 3)) { case 0: s.make(arg); break; case 1: s.make(std::move(copy)); break; case 2: s.make(arg.c_str()); break; default: s.make(std::string(arg)); }
    std::vector<std::string> vals; bool order = Counted::made == n;
    for (int i = 0; i < n; ++i) { vals.push_back(jbytes(s[i].s)); order = order && s[i].id == i; }
    int live = Counted::live;
    s.destroy();
    Ev ev("objects"); ev.i("n", n).t("arg", arg).j("vals", jlist(vals)).i("live", live).i("left", Counted::live).b("order", order); ep.emit(ev);
  }
  void run() {
    int steps = ep.thorough ? 150 : 60;
    for (int it = 0; it < steps; ++it) {
      int i = r.range(0, REGS - 1), w = r.range(0, int(std::variant_size_v<Any>) - 1), c = r.range(0, 11);
      ep.pending("memspan " + std::to_string(c));
      if (c == 0 || it < 3) fresh(i, w);
      else if (c == 1) conv(r.range(0, REGS - 1), i, w);
      else if (c == 2 || c == 3) rebind(r.range(0, REGS - 1), i, w);
      else if (c == 4 && r.chance(1, 5)) objects();
      else std::visit([&](auto &s) { op(s, i); }, reg[i]);
    }
  }
};
int main(int argc, char **argv) { return vt::main(argc, argv, [](Ep &ep) { Drive(ep).run(); }, 1000, 10000); }
