// Recorder for formatted output (BufferWriter::print and friends).
#include "vt.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include "swoc/ArenaWriter.h"
#include <chrono>
#include <cmath>
#include <memory>
#include <sstream>
#include <bitset>
using namespace swoc;
using vt::Ep;
using vt::Ev;
using vt::jbytes;
using vt::jlist;
using vt::Rec;
using vt::Rng;

struct Arg;
using Args = std::vector<Arg>;

/// A value of some kind. Formatting it forwards to the formatter of the library for that kind.
struct Arg {
  std::string json;
  std::function<BufferWriter &(BufferWriter &, bwf::Spec const &)> f;
  std::string kind;
};

namespace swoc { inline namespace SWOC_VERSION_NS {
BufferWriter &bwformat(BufferWriter &w, bwf::Spec const &spec, Arg const &a) { return a.f(w, spec); }
}}

struct Pack : public bwf::ArgPack {
  Args const &args;
  explicit Pack(Args const &a) : args(a) {}
  std::any capture(unsigned idx) const override { return std::any(&args[idx]); }
  BufferWriter &print(BufferWriter &w, bwf::Spec const &spec, unsigned idx) const override { return args[idx].f(w, spec); }
  unsigned count() const override { return args.size(); }
};

static std::string text_of(Rng &r, int lo, int hi) {
  std::string s;
  int n = r.range(lo, hi);
  for (int i = 0; i < n; ++i) s += static_cast<char>(r.chance(1, 12) ? r.range(0, 255) : r.chance(1, 4) ? r.range('A', 'Z') : r.range('a', 'z'));
  return s;
}

static Arg make(std::string kind, Rec rec, std::function<BufferWriter &(BufferWriter &, bwf::Spec const &)> f) {
  return {rec.s("k", kind).str(), std::move(f), kind};
}
static char const *const NAMES[] = {"alpha", "b", "pi-2", "x y", "A1", "0x1", "1a", "-3"};

template <typename T> static Arg an_int(T v) {
  uint64_t mag = v < 0 ? 0 - static_cast<uint64_t>(v) : static_cast<uint64_t>(v);
  return make("int", Rec{}.b("neg", v < 0).j("x", vt::ju64(mag)), [v](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & { return bwformat(w, s, v); });
}
template <typename T> static T num(Rng &r) {
  using L = std::numeric_limits<T>;
  switch (r.range(0, 5)) {
  case 0: return L::max();
  case 1: return L::min();
  case 2: return static_cast<T>(r.range(0, 9));
  case 3: return static_cast<T>(r.range(-40, 100));
  default: return static_cast<T>(r.next() >> r.range(0, 63));
  }
}

static Arg some_int(Rng &r) {
  switch (r.range(0, 9)) {
  case 0: return an_int(num<int>(r));
  case 1: return an_int(num<unsigned>(r));
  case 2: return an_int(num<int64_t>(r));
  case 3: return an_int(num<uint64_t>(r));
  case 4: return an_int(num<short>(r));
  case 5: return an_int(num<uint8_t>(r));
  case 6: return an_int(num<int8_t>(r));
  case 7: {
    int v = num<int>(r);
    auto a = an_int(v);
    a.f = [v](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & { std::atomic<int> x{v}; return bwformat(w, s, x); };
    return a;
  }
  case 8: {
    int64_t v = num<int64_t>(r);
    auto a = an_int(v);
    bool tp = r.chance(1, 2);
    a.f = [v, tp](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & {
      std::chrono::nanoseconds d{v};
      if (tp) return bwformat(w, s, std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>(d));
      return bwformat(w, s, d);
    };
    return a;
  }
  default: return an_int(num<unsigned long long>(r));
  }
}

static Arg some_text(Rng &r) {
  auto s = std::make_shared<std::string>(text_of(r, 0, 9));
  auto addr = [&](char const *p) { return vt::ju64(reinterpret_cast<uintptr_t>(p)); };
  switch (r.range(0, 6)) {
  case 0: return make("str", Rec{}.t("t", *s), [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, std::string_view(*s)); });
  case 1: return make("str", Rec{}.t("t", *s), [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, TextView(*s)); });
  case 2: return make("str", Rec{}.t("t", *s), [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, *s); });
  case 3: { // C string
    auto c = std::make_shared<std::string>(s->c_str());
    char const *p = c->c_str();
    return make("cstr", Rec{}.t("t", *c).j("x", addr(p)), [c, p](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, p); });
  }
  case 4: { // an array is a C string
    static const char lit[] = "literal";
    return make("cstr", Rec{}.t("t", "literal").j("x", addr(lit)), [](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, lit); });
  }
  case 5: { // another writer
    auto b = std::make_shared<LocalBufferWriter<20>>();
    b->write(*s);
    return make("str", Rec{}.t("t", *s), [b](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, static_cast<BufferWriter const &>(*b)); });
  }
  default: { // first non empty
    static const char *nil = nullptr;
    auto e = std::make_shared<std::string>(r.chance(1, 2) ? "" : text_of(r, 1, 4));
    if (r.chance(1, 3)) { // possibly all of them are empty
      return make("str", Rec{}.t("t", !e->empty() ? *e : *s), [s, e](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::FirstOf(nullptr, *e, nil, "", std::string_view(*s))); });
    }
    std::string want = !e->empty() ? *e : !s->empty() ? *s : "end";
    return make("str", Rec{}.t("t", want), [s, e](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::FirstOf(nil, *e, TextView(*s), "end")); });
  }
  }
}

static Arg some_ptr(Rng &r) {
  if (r.chance(1, 2)) {
    switch (r.range(0, 2)) {
    case 0: return make("nil", Rec{}, [](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, nullptr); });
    case 1: return make("nil", Rec{}, [](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, static_cast<char const *>(nullptr)); });
    default: return make("nil", Rec{}, [](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, static_cast<void *>(nullptr)); });
    }
  }
  uint64_t v = (r.next() >> r.range(1, 60)) + 1;
  return make("ptr", Rec{}.j("x", vt::ju64(v)), [v](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, reinterpret_cast<void *>(v)); });
}

static Arg some_float(Rng &r) {
  int j    = r.range(0, 6);
  long n   = r.chance(1, 6) ? r.range(0, 100) : r.range(0, (1 << r.range(4, 22)));
  while (j > 0 && n % 2 == 0) { n /= 2; --j; }
  if (n == 0) j = 0;
  bool neg = n && r.chance(1, 3);
  double d = static_cast<double>(n) / (1 << j) * (neg ? -1 : 1);
  bool fp  = r.chance(1, 3) && n < (1 << 20);
  auto rec = Rec{}.b("neg", neg).i("n", n).i("j", j);
  if (n == 0 && r.chance(1, 2)) d = -0.0;
  return make("flt", rec, [d, fp](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & {
    if (fp) { float f = static_cast<float>(d); return bwformat(w, q, f); }
    return bwformat(w, q, d);
  });
}

static std::string err_name(int e) { // independent of the library
  char const *p = e == 0 ? "SUCCESS" : e > 133 || e < 0 ? nullptr : strerrorname_np(e);
  return p ? p : "Unknown";
}
static int errno_value(Rng &r) {
  if (r.chance(1, 8)) return r.range(134, 100000);
  int e;
  do e = r.range(0, 133); while (e == 41 || e == 58 || e == 95); // aliases / unassigned
  return e;
}

static std::string format_text(Rng &r, Args const &args, bool simple, int pieces);
static Arg some_arg(Rng &r, int depth = 0);
static BufferWriter &print_args(BufferWriter &w, TextView fmt, Args const &a) {
  switch (a.size()) {
  case 0: return w.print(fmt);
  case 1: return w.print(fmt, a[0]);
  case 2: return w.print(fmt, a[0], a[1]);
  case 3: return w.print(fmt, a[0], a[1], a[2]);
  default: return w.print(fmt, a[0], a[1], a[2], a[3]);
  }
}
static BufferWriter &print_args(BufferWriter &w, bwf::Format const &fmt, Args const &a) {
  switch (a.size()) {
  case 0: return w.print(fmt);
  case 1: return w.print(fmt, a[0]);
  case 2: return w.print(fmt, a[0], a[1]);
  case 3: return w.print(fmt, a[0], a[1], a[2]);
  default: return w.print(fmt, a[0], a[1], a[2], a[3]);
  }
}

static Arg raw(std::string s) {
  return make("raw", Rec{}.t("t", s), [s](BufferWriter &w, bwf::Spec const &) -> BufferWriter & { return w.write(s); });
}
/// A formatter that writes the specifier it is given. The index is not written, it depends on how the format is printed.
static Arg echo() {
  return make("echo", Rec{}, [](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & {
    long mx = q._max == std::numeric_limits<unsigned>::max() ? -1 : static_cast<long>(q._max);
    w.write(q._name).write('|').write(q._fill).write(q._align == bwf::Spec::Align::NONE ? '.' : ".<>^="[static_cast<int>(q._align)]).write(q._sign);
    w.write(q._radix_lead_p ? '#' : '.').write(q._type).write(std::to_string(q._min) + "," + std::to_string(q._prec) + "," + std::to_string(mx) + "|");
    return w.write(q._ext);
  });
}
static std::string G_names_json = "[]"; // global names, visible to sub texts

static Arg some_special(Rng &r, int depth) {
  switch (r.range(0, 15)) {
  case 0: { // hex dump of memory
    auto s = std::make_shared<std::string>(text_of(r, 0, 7));
    return make("hex", Rec{}.t("t", *s), [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::HexDump(s->data(), s->size())); });
  }
  case 1: { // hex dump of an object
    uint32_t v = r.next();
    return make("hex", Rec{}.t("t", {reinterpret_cast<char *>(&v), sizeof v}), [v](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::As_Hex(v)); });
  }
  case 2: { // spans
    auto s = std::make_shared<std::string>(text_of(r, 1, 9));
    int es = r.range(0, 2) == 0 ? 0 : r.chance(1, 2) ? 1 : 2;
    if (es == 2 && s->size() % 2) s->pop_back();
    if (s->empty()) es = 0, *s = "abc";
    auto rec = Rec{}.t("t", *s).i("n", es).j("x", vt::ju64(reinterpret_cast<uintptr_t>(s->data())));
    if (es == 0) {
      bool c = r.chance(1, 2);
      return make("span", rec, [s, c](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & {
        if (c) return bwformat(w, q, MemSpan<void const>(s->data(), s->size()));
        return bwformat(w, q, MemSpan<void>(s->data(), s->size()));
      });
    }
    if (es == 1) return make("span", rec, [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, MemSpan<char>(s->data(), s->size())); });
    return make("span", rec, [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & {
      return bwformat(w, q, MemSpan<uint16_t>(reinterpret_cast<uint16_t *>(s->data()), s->size() / 2));
    });
  }
  case 3: { // date, GMT
    long t = r.chance(1, 3) ? r.range(0, 100000) : r.range(0, 2147400000);
    if (r.chance(1, 4)) { // around the end of February
      t = 68169600 + 86400L * 365 * r.range(0, 30) + 86400L * r.range(-3, 12);
    }
    return make("date", Rec{}.i("n", t), [t](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::Date(t)); });
  }
  case 4:
  case 5: {
    int e = errno_value(r);
    bool cur = r.chance(1, 3);
    return make("errno", Rec{}.i("n", e).t("t", err_name(e)).t("m", strerror(e)), [e, cur](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & {
      if (cur) { errno = e; return bwformat(w, q, bwf::Errno()); }
      return bwformat(w, q, bwf::Errno(e));
    });
  }
  case 6: {
    int e  = r.chance(1, 4) ? -r.range(1, 99) : errno_value(r);
    bool g = r.chance(1, 2);
    std::error_code ec{e, g ? std::generic_category() : std::system_category()};
    bool sh = e >= 0 && e <= 133;
    return make("ec", Rec{}.i("n", e).t("t", sh ? err_name(e) : ec.message()).b("b", sh), [ec](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, ec); });
  }
  case 7: {
    auto s = std::make_shared<std::string>(text_of(r, 0, 5));
    int n  = r.range(0, 5);
    return make("pat", Rec{}.t("t", *s).i("n", n), [s, n](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::Pattern{n, *s}); });
  }
  case 8: {
    auto s = std::make_shared<std::string>();
    for (int n = r.range(0, 11); n > 0; --n) *s += "0123456789abcdefABCDEF"[r.range(0, 21)];
    return make("unhex", Rec{}.t("t", *s), [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::UnHex(*s)); });
  }
  case 9: {
    std::bitset<7> b(r.range(0, 127));
    std::vector<int> v;
    for (int i = 0; i < 7; ++i) v.push_back(b[i]);
    return make("bits", Rec{}.v("v", v), [b](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, b); });
  }
  case 10: {
    auto s = std::make_shared<std::string>(text_of(r, 0, 7).c_str());
    return make("exc", Rec{}.t("t", *s), [s](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, std::runtime_error(*s)); });
  }
  case 11: {
    bool b = r.chance(1, 2);
    return make("bool", Rec{}.b("b", b), [b](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, b); });
  }
  case 12: {
    bool neg = r.chance(1, 2), nan = r.chance(1, 3);
    bool sub = !nan && r.chance(1, 3);
    double d = nan ? std::nan("") : sub ? std::ldexp(neg ? -1.0 : 1.0, -static_cast<int>(r.range(1023, 1074))) : neg ? -INFINITY : INFINITY;
    return make("word", Rec{}.b("neg", neg && !nan).t("t", nan ? "NaN" : sub ? "subnormal" : "Inf"), [d](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, d); });
  }
  default: { // nested text
    if (depth > 1) return some_text(r);
    auto a = std::make_shared<Args>();
    bool on = r.chance(2, 3);
    switch (r.range(0, 2)) {
    case 0: { // If
      a->push_back(some_arg(r, depth + 1));
      a->push_back(some_arg(r, depth + 1));
      auto f = std::make_shared<std::string>(format_text(r, *a, true, 3));
      auto rec = Rec{}.t("t", on ? *f : "").j("args", jlist({(*a)[0].json, (*a)[1].json})).j("names", G_names_json);
      return make("sub", rec, [=](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, bwf::If(on, *f, (*a)[0], (*a)[1])); });
    }
    case 1: { // Optional on a text
      auto s = std::make_shared<std::string>(on ? text_of(r, 1, 5) : "");
      auto f = std::make_shared<std::string>(std::string("<") + (r.chance(1, 2) ? "{}" : "{0:>6}") + ">");
      auto rec = Rec{}.t("t", on ? *f : "").j("args", jlist({Rec{}.s("k", "str").t("t", *s).str()})).j("names", "[]");
      bool tv = r.chance(1, 2);
      return make("sub", rec, [=](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & {
        if (tv) return bwformat(w, q, bwf::Optional(*f, TextView(*s)));
        return bwformat(w, q, bwf::Optional(*f, *s));
      });
    }
    default: { // Optional on a pointer
      auto s = std::make_shared<std::string>(text_of(r, 0, 5).c_str());
      auto rec = Rec{}.t("t", on ? "[{}]" : "").j("args", jlist({Rec{}.s("k", "str").t("t", *s).str()})).j("names", "[]");
      return make("sub", rec, [=](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & {
        char const *p = on ? s->c_str() : nullptr;
        return bwformat(w, q, bwf::Optional("[{}]", p));
      });
    }
    }
  }
  }
}

static Arg some_arg(Rng &r, int depth) {
  switch (r.range(0, 9)) {
  case 0:
  case 1:
  case 2: return some_int(r);
  case 3:
  case 4: return some_text(r);
  case 5: return some_ptr(r);
  case 6: return some_float(r);
  case 7: {
    char c = r.chance(1, 4) ? r.range(0, 255) : r.range('!', '~');
    return make("char", Rec{}.i("c", static_cast<unsigned char>(c)), [c](BufferWriter &w, bwf::Spec const &q) -> BufferWriter & { return bwformat(w, q, c); });
  }
  case 8:
    if (r.chance(1, 2)) return echo();
    [[fallthrough]];
  default: return some_special(r, depth);
  }
}

/// A style suitable for the kind of value.
static std::string style(Rng &r, std::string const &k, bool simple) {
  std::string s;
  bool number = k == "int" || k == "flt" || k == "bool" || k == "ptr" || k == "nil" || k == "word";
  bool plain  = k == "ec" || k == "date"; // the style also applies to a part of the output.
  bool fill = r.chance(1, 3), align = fill || r.chance(1, 3);
  int mn = r.chance(1, 2) ? r.range(1, r.chance(1, 4) ? 30 : 14) : 0;
  std::string al = number || k == "hex" || k == "echo" ? "<>^=" : "<>^";
  if (simple) fill = false;
  if (k == "exc" || k == "ec") align = fill = false, mn = 0;
  if (k == "nil" || k == "bool") al = "<>^";
  std::string ty;
  auto pick = [&](char const *set) { ty = std::string(1, set[r.range(0, strlen(set) - 1)]); };
  if (r.chance(1, 2)) {
    if (k == "int" || k == "echo") pick("dxXbBogsSpP");
    else if (k == "str" || k == "cstr") pick(r.chance(1, 2) ? "xX" : "gsS");
    else if (k == "ptr") pick("pPxXgdo");
    else if (k == "nil") pick("pPxXsSg");
    else if (k == "bool") pick("sSdxg");
    else if (k == "hex" || k == "span") pick("xX");
    else if (k == "errno") pick("sSdg");
    else if (k == "ec") pick("sSdg");
    else if (k == "date") pick("dxg");
    else if (k == "char") pick("gsd");
  }
  bool zero = (number || k == "echo") && k != "nil" && k != "bool" && k != "word" && r.chance(1, 6);
  if (k == "date" && ty.empty()) plain = true;
  if (plain && k == "date" && ty != "d" && ty != "x") zero = false;
  std::string a;
  if (align) a = std::string(1, al[r.range(0, al.size() - 1)]);
  if (fill) {
    if (r.chance(1, 4)) {
      char b[8];
      snprintf(b, sizeof b, r.chance(1, 2) ? "%%%02x" : "%%%02X", static_cast<int>(r.range(0, 255)));
      s += b;
    } else {
      char c;
      do c = r.range('!', '~'); while (strchr("{}:%", c));
      if (r.chance(1, 8)) c = static_cast<char>(r.range(128, 255));
      s += c;
    }
  }
  s += a;
  if (number || k == "errno" || k == "echo") {
    if (r.chance(1, 3)) s += "+- "[r.range(0, 2)];
  }
  if ((number || k == "str" || k == "cstr" || k == "hex" || k == "span" || k == "echo") && r.chance(1, 4)) s += '#';
  if (zero) s += '0';
  if (mn) s += std::to_string(mn);
  if ((k == "str" || k == "cstr" || k == "echo" || (k == "span" && !ty.empty())) && r.chance(1, 4)) s += "." + std::to_string(r.range(1, 6));
  if (k == "flt" && r.chance(1, 2)) s += "." + std::to_string(r.chance(1, 8) ? r.range(8, 10) : r.range(1, 7));
  bool mx = r.chance(1, 6), after = r.chance(1, 2);
  if (!(mx && after)) s += ty;
  // A maximum below the minimum only if the padding is last: output in pieces (e.g. a pattern) may stop at the maximum.
  int const least = a.empty() || a == "<" ? 0 : mn;
  if (mx) s += "," + std::to_string(r.range(least, std::max(least, 12)));
  if (mx && after) s += ty;
  if (k == "errno" && r.chance(1, 2)) { static char const *const x[] = {":s", ":l", ":sl", ":ls", ":"}; s += x[r.range(0, 4)]; }
  else if (k == "date") { if (r.chance(1, 3)) s += r.chance(1, 4) ? ":loc" : ":local"; }
  else if (k == "echo") { // anything but braces
    if (r.chance(1, 2)) {
      s += ':';
      for (int n = r.range(0, 5); n > 0; --n) s += ":,.%<ab0 #\"\\"[r.range(0, 11)];
    }
  } else if (r.chance(1, 15) && k != "errno") s += ":ext";
  return s;
}

static std::string format_text(Rng &r, Args const &args, bool simple, int pieces) {
  std::string s;
  int n    = r.range(0, pieces);
  int next = 0;
  for (int i = 0; i < n; ++i) {
    switch (r.range(0, 7)) {
    case 0:
    case 1: {
      std::string t = text_of(r, 0, 4);
      for (char c : t) { s += c; if (c == '{' || c == '}') s += c; }
      break;
    }
    case 2: s += r.chance(1, 2) ? "{{" : "}}"; break;
    default: {
      std::string name, kind;
      size_t ai = ~0ul;
      switch (r.range(0, 9)) {
      case 0: case 1: case 2: case 3: case 4: ai = next++; break;
      case 5: case 6: case 7: ai = r.range(0, 4); name = (r.chance(1, 8) ? "0" : "") + std::to_string(ai); break;
      case 8: name = NAMES[r.range(0, 7)]; break;
      default: if (r.chance(1, 3)) name = std::to_string(r.next() >> r.range(0, 40)); else name = text_of(r, 1, 3);
      }
      for (char &c : name) if (c == '{' || c == '}' || c == ':') c = '.';
      bool number = !name.empty();
      for (char c : name) number = number && isdigit(static_cast<unsigned char>(c));
      if (number && ai == ~0ul && name.size() < 3) ai = atoi(name.c_str());
      kind = ai < args.size() ? args[ai].kind : "raw";
      s += "{" + name;
      if (r.chance(2, 3)) s += ":" + style(r, kind, simple);
      s += "}";
    }
    }
  }
  return s;
}

static void printing(Ep &ep, bool special) {
  Rng &r = ep.rng;
  // global names, and names for a context
  struct Ctx { int x = 0; };
  bwf::ContextNames<Ctx> cn;
  bwf::ExternalNames en;
  std::vector<std::string> gl, cl, el;
  for (auto name : NAMES) {
    if (r.chance(1, 2)) {
      Arg a = some_arg(r, 2);
      if (a.kind != "str" && a.kind != "int") a = raw(text_of(r, 0, 6));
      gl.push_back(Rec{}.t("n", name).j("v", a.json).str());
      std::string tmp{name}; // the name must be copied.
      bwf::Global_Names.assign(tmp, [a](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & { return a.f(w, s); });
      std::fill(tmp.begin(), tmp.end(), '#');
    }
    if (r.chance(1, 2)) {
      Arg a = raw(text_of(r, 0, 6));
      el.push_back(Rec{}.t("n", name).j("v", a.json).str());
      en.assign(name, [a](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & { return a.f(w, s); });
    }
    if (r.chance(1, 3)) { // depends on the context
      cl.push_back(std::string("C") + name);
      cn.assign(name, [](BufferWriter &w, bwf::Spec const &, Ctx &c) -> BufferWriter & { return w.print("<{}>", c.x); });
    } else if (r.chance(1, 3)) {
      cl.push_back(std::string("E") + name);
      cn.assign(name, [](BufferWriter &w, bwf::Spec const &) -> BufferWriter & { return w.write("ext"); });
    }
  }
  G_names_json = jlist(gl);
  int steps = ep.thorough ? 20 : 12;
  for (int st = 0; st < steps; ++st) {
    Args args;
    for (int n = r.range(0, 4); n > 0; --n) args.push_back(special && r.chance(2, 3) ? some_special(r, 0) : some_arg(r));
    std::string fmt = format_text(r, args, false, 5);
    if (special && args.size() && r.chance(1, 2)) fmt = "{:" + style(r, args[0].kind, false) + "}" + (r.chance(1, 2) ? "." : "");
    if (!special && r.chance(1, 6)) { // break it
      for (int n = r.range(1, 2); n > 0; --n) {
        int at = r.range(0, fmt.size());
        if (r.chance(1, 2) && !fmt.empty()) fmt.erase(std::min<size_t>(at, fmt.size() - 1), 1);
        else fmt.insert(at, 1, "{}%.,:}"[r.range(0, 6)]);
      }
      if (r.chance(1, 4)) { // an encoded fill, perhaps
        std::string f8 = "{:%";
        for (int n = r.range(0, 2); n >= 0; --n) f8 += r.pick(std::vector<char>{'0', '9', 'a', 'F', 'g', 'G', '@', '`', '/', ':', '4'});
        f8 += r.pick(std::vector<std::string>{"<", ">", "^", "=", "", "x"}) + std::to_string(r.range(0, 9)) + "}";
        fmt.insert(r.range(0, fmt.size()), f8);
      }
      for (size_t i = 0, run = 0; i < fmt.size(); ++i) { // no widths of thousands
        run = isdigit(static_cast<unsigned char>(fmt[i])) ? run + 1 : 0;
        if (run > 3) fmt[i] = '}', run = 0;
      }
      // specifiers for values of unknown kind follow: only plain values.
      args.clear();
    }
    // exact size copy for the sanitizer
    std::unique_ptr<char[]> ft{new char[fmt.size()]};
    memcpy(ft.get(), fmt.data(), fmt.size());
    TextView f{ft.get(), fmt.size()};
    std::vector<std::string> ja;
    for (auto &a : args) ja.push_back(a.json);
    int how = r.range(0, 9);
    Ev ev("print");
    size_t cap = r.chance(1, 2) ? 200 : r.range(0, 30);
    std::unique_ptr<char[]> mem{new char[cap]};
    FixedBufferWriter w{mem.get(), cap};
    std::string pre = text_of(r, 0, 5);
    bool thr = false;
    std::string out;
    size_t ext = 0;
    bool err = false, str = false;
    std::string names = G_names_json;
    static char const *const HOW[] = {"text", "format", "base", "nfv", "context", "names", "bwprint", "bwappend", "arena", "stored"};
    ep.pending(std::string(HOW[how]) + " '" + fmt + "' " + jlist(ja).substr(0, 300));
    MemArena arena{0};
    ArenaWriter aw{arena};
    try {
      if (how < 6) w.write(pre);
      switch (how) {
      case 0: print_args(w, f, args); break;
      case 1: { bwf::Format x{f}; print_args(w, x, args); break; }
      case 2: if (args.size() == 2) w.print_v(f, std::forward_as_tuple(args[0], args[1])); else print_args(static_cast<BufferWriter &>(w), f, args); break;
      case 3: if (r.chance(1, 2)) w.print_nfv(bwf::Global_Names.bind(), bwf::Format::bind(f), Pack{args});
              else { names = jlist(el); bwf::Format x{f}; w.print_nfv(en.bind(), x.bind(), Pack{args}); }
              break;
      case 4: {
        Ctx c{static_cast<int>(r.range(0, 1000))};
        std::vector<std::string> j;
        for (auto &n : cl) j.push_back(Rec{}.t("n", n.substr(1)).j("v", raw(n[0] == 'C' ? "<" + std::to_string(c.x) + ">" : "ext").json).str());
        names = jlist(j);
        if (r.chance(1, 2)) w.print_nfv(cn.bind(c), bwf::Format::bind(f), Pack{args});
        else { args.clear(); ja.clear(); w.print_n(cn.bind(c), f); }
        break;
      }
      case 5: names = jlist(el); args.clear(); ja.clear(); w.print_n(en.bind(), f); break;
      case 6: case 7: {
        str = true;
        out = pre;
        if (r.chance(1, 3)) out.reserve(r.range(0, 90));
        if (r.chance(1, 4)) out.append(60, '!');
        if (how == 6) pre.clear(); else pre = out;
        auto go = [&](auto &&...a) { if (how == 6) bwprint(out, f, a...); else bwappend(out, f, a...); };
        switch (args.size()) {
        case 0: go(); break;
        case 1: go(args[0]); break;
        case 2: go(args[0], args[1]); break;
        case 3: go(args[0], args[1], args[2]); break;
        default: go(args[0], args[1], args[2], args[3]); break;
        }
        break;
      }
      case 8: str = true; aw.write(pre); print_args(aw, f, args); out = std::string(aw.view()); err = aw.error() || aw.extent() != out.size(); break;
      default: { // parsed once, printed twice, after a move
        bwf::Format x{f};
        FixedBufferWriter scratch{nullptr};
        print_args(scratch, x, args);
        bwf::Format y{std::move(x)};
        print_args(w, y, args);
        pre.clear();
      }
      }
    } catch (std::invalid_argument const &) {
      thr = true;
    }
    if (!str) { out = std::string(w.view()); ext = w.extent(); err = w.error(); }
    ev.s("how", HOW[how]).t("fmt", fmt).j("args", jlist(ja)).j("names", names).t("pre", pre).b("thr", thr).b("str", str).i("cap", cap).t("out", out).i("ext", ext).b("err", err);
    ep.emit(ev);
  }
}

/// A format in another syntax: a specifier may take an argument as its width.
struct WidthSpec : public bwf::Spec {};
struct Stars {
  TextView src;
  int width = -1;
  explicit operator bool() const { return !src.empty(); }
  bool operator()(std::string_view &lit, WidthSpec &spec) {
    width = width < -1 ? -1 : width;
    size_t n = 0;
    while (n < src.size() && src[n] != '$' && src[n] != '*') ++n;
    lit = src.prefix(n);
    src.remove_prefix(n);
    if (src.empty()) return false;
    if (src.front() == '*') spec._type = bwf::Spec::CAPTURE_TYPE;
    else if (width >= 0) { spec._min = width; spec._align = bwf::Spec::Align::RIGHT; width = -1; }
    src.remove_prefix(1);
    return true;
  }
  void capture(BufferWriter &, bwf::Spec const &, std::any const &v) {
    if (auto p = std::any_cast<int const *>(&v)) width = **p;
    else if (auto q = std::any_cast<int *>(&v)) width = **q;
    else if (auto u = std::any_cast<unsigned const *>(&v)) width = static_cast<int>(**u);
    else width = 77;
  }
};
struct NoCapture {
  TextView src;
  explicit operator bool() const { return !src.empty(); }
  bool operator()(std::string_view &, bwf::Spec &spec) { spec._type = bwf::Spec::CAPTURE_TYPE; src.clear(); return true; }
};
static void captures(Ep &ep) {
  Rng &r = ep.rng;
  std::string f;
  for (int n = r.range(0, 6); n > 0; --n) f += r.pick(std::vector<std::string>{"a", "$", "*$", "$", "bc", "*", "{}"});
  const int a = r.range(0, 12);
  int b = r.range(-3, 20);
  unsigned c = r.range(0, 9);
  size_t cap = r.chance(1, 2) ? 120 : r.range(0, 20);
  std::unique_ptr<char[]> mem{new char[cap]};
  FixedBufferWriter w{mem.get(), cap};
  ep.pending("capture " + f);
  std::tuple<int const &, int &, unsigned> t{a, b, c};
  Stars ex{f};
  w.print_nfv(bwf::Global_Names.bind(), ex, bwf::ArgTuple{t});
  Ev ev("capture");
  ev.t("fmt", f).v("a", std::vector<long>{a, b, static_cast<long>(c)}).i("cap", cap).t("out", w.view()).i("ext", w.extent());
  bool thr = false;
  try { NoCapture nc{"x"}; w.print_nfv(bwf::Global_Names.bind(), nc, bwf::ArgTuple{t}); } catch (std::runtime_error const &) { thr = true; }
  ev.b("thr", thr);
  // a format without a specifier is literal
  std::string lf = r.chance(1, 2) ? std::string("just ") + "text{{"[r.range(0, 3)] : "x{" + std::to_string(r.range(0, 3)) + "}";
  if (lf.back() == '{') lf += '{';
  bwf::Format x{lf};
  Rec items;
  size_t k = 0, lits = 0;
  for (auto &it : x) { ++k; if (it._type == bwf::Spec::LITERAL_TYPE) ++lits; }
  size_t kc = 0;
  for (auto const &it : static_cast<bwf::Format const &>(x)) { (void)it; ++kc; }
  ev.t("lf", lf).b("lit", x.is_literal()).b("lit0", bwf::Format{""}.is_literal()).v("ks", std::vector<long>{static_cast<long>(k), static_cast<long>(kc), static_cast<long>(lits)});
  // character classes of the style
  int ch = r.range(0, 255);
  bwf::Spec q; q._type = static_cast<char>(ch);
  ev.i("c", ch).v("cc", std::vector<long>{bwf::Spec::is_type(ch), bwf::Spec::is_upper_case_type(ch), bwf::Spec::is_numeric_type(ch),
    q.has_upper_case_type(), q.has_numeric_type(), q.has_pointer_type()});
  // now
  std::vector<std::string> when;
  auto text = [](time_t t) { struct tm g; gmtime_r(&t, &g); char z[64]; return std::string(z, strftime(z, sizeof z, "%Y %j %H:%M:%S", &g)); };
  time_t t0 = time(nullptr);
  std::string now;
  bwprint(now, "{}", bwf::Date("%Y %j %H:%M:%S"));
  // time() lags the clock by up to a tick: it is a lower bound before, not an upper bound after.
  for (time_t t1 = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); t0 <= t1; ++t0) when.push_back(vt::jbytes(text(t0)));
  ev.t("now", now).j("when", jlist(when));
  ep.emit(ev);
}

/// One value, direct: operator<< and format().
static void direct(Ep &ep) {
  Rng &r = ep.rng;
  for (int st = 0; st < 20; ++st) {
    Arg a = some_arg(r);
    std::string st8 = r.chance(1, 2) || (a.kind != "int" && a.kind != "flt") ? "" : ":" + style(r, a.kind, false);
    size_t cap = r.chance(2, 3) ? 120 : r.range(0, 12);
    std::unique_ptr<char[]> mem{new char[cap]};
    FixedBufferWriter w{mem.get(), cap};
    ep.pending("direct " + a.json.substr(0, 300));
    bool sh = st8.empty() && r.chance(1, 2);
    if (sh) static_cast<BufferWriter &>(w) << a;
    else { bwf::Spec q{st8}; w.format(q, a); }
    ep.emit(Ev("direct").t("st", st8).j("a", a.json).i("cap", cap).t("out", w.view()).i("ext", w.extent()));
  }
}

/// Floating point: any value.
static void floats(Ep &ep) {
  Rng &r = ep.rng;
  for (int st = 0; st < 12; ++st) {
    double d;
    switch (r.range(0, 5)) {
    case 0: d = static_cast<double>(r.range(0, 2000000)) / 1000; break;
    case 1: d = static_cast<double>(r.range(0, 200000)) / 100 - 0.001; break;
    case 2: d = std::ldexp(static_cast<double>(r.next() >> 11), r.range(-80, 30)); break;
    case 3: d = std::ldexp(static_cast<double>(r.next() >> 11), r.range(-60, -40)); break;
    case 4: d = r.range(1, 100) - std::pow(10, -r.range(1, 12)); break;
    default: d = static_cast<double>(r.range(0, 1000)) + static_cast<double>(r.range(0, 1000)) / 1000; break;
    }
    if (r.chance(1, 20)) d = std::ldexp(d, r.range(60, 900));
    d = std::fabs(d);
    if (!std::isnormal(d)) d = 1.5;
    bool neg = r.chance(1, 3);
    int e;
    double m = std::frexp(d, &e);
    uint64_t mm = static_cast<uint64_t>(std::ldexp(m, 53));
    e -= 53;
    while (mm % 2 == 0) { mm /= 2; ++e; }
    int p = r.chance(1, 3) ? -1 : r.chance(1, 6) ? r.range(10, 25) : r.range(1, 9);
    std::string f = "{" + std::string(p >= 0 ? ":." + std::to_string(p) : "") + "}";
    ep.pending("float " + f + " " + std::to_string(d));
    LocalBufferWriter<500> w;
    w.print(f, neg ? -d : d);
    ep.emit(Ev("float").j("m", vt::ju64(mm)).i("e", e).b("neg", neg).i("p", p).t("out", w.view()));
  }
}

int main(int argc, char **argv) {
  setenv("TZ", "VTZ-5:30", 1);
  tzset();
  return vt::main(argc, argv, [](Ep &ep) {
    if (ep.only == "parse") printing(ep, false);
    else if (ep.only == "values") { if (ep.id % 4 == 0) { floats(ep); captures(ep); } else if (ep.id % 4 == 1) direct(ep); else printing(ep, true); }
  }, 3200, 20000);
}
