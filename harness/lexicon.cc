// Conformance driver for swoc::Lexicon.
#include "vt.h"
#include "swoc/Lexicon.h"
#include <deque>
#include <map>
#include <memory>
using namespace vt;
using swoc::TextView;

enum class E32 : int {};
enum class E8 : unsigned char {};
enum class E64 : int64_t {};
enum Plain : unsigned { P0 = 0, PMAX = 0xffffffffu };

template <typename E> void drive(Ep &ep) {
  using Lex = swoc::Lexicon<E>;
  auto &r   = ep.rng;
  // Values 1..N of the specification.
  std::vector<E> vals{E{}};
  std::vector<std::string> dec{""};
  int N = r.range(1, 9);
  {
    static long long const special[] = {0, 1, 2, 7, 8, 255, 127, 100000, 0x7fffffff, 3, 14, 21, 28, 42, 100};
    std::vector<E> seen;
    while (int(vals.size()) <= N) {
      E e;
      if (r.chance(1, 2)) e = static_cast<E>(special[r.range(0, 14)]);
      else e = static_cast<E>(r.range(0, 60));
      if (sizeof(E) == 8 && r.chance(1, 4)) e = static_cast<E>(static_cast<long long>(r.range(0, 1000)) << 33);
      if (r.chance(1, 10)) e = static_cast<E>(-1);
      if (std::find(vals.begin() + 1, vals.end(), e) != vals.end()) continue;
      vals.push_back(e);
      char b[32];
      snprintf(b, sizeof b, "%u", static_cast<unsigned>(static_cast<long long>(e)));
      dec.push_back(b);
    }
  }
  auto id_of = [&](E e) { for (size_t i = 1; i < vals.size(); ++i) if (vals[i] == e) return int(i); return 0; };
  std::vector<std::string> pool; // names to use; many differ by case only.
  int NN = r.range(2, 14);
  for (int i = 0; i < NN; ++i) {
    std::string s;
    if (i && r.chance(1, 3)) { s = pool[r.range(0, i - 1)]; for (char &c : s) if (isalpha(static_cast<unsigned char>(c)) && r.chance(1, 2)) c ^= 0x20; if (r.chance(1, 4)) s += "x"; }
    else {
      int n = r.chance(1, 12) ? r.range(100, 700) : r.range(0, 6);
      for (int k = 0; k < n; ++k) s += r.chance(1, 12) ? static_cast<char>(r.range(0, 255)) : "abAB12zZ-[{@`"[r.range(0, 12)];
    }
    pool.push_back(s);
  }
  std::deque<std::string> kept; // storage of defaults, process lifetime.
  std::vector<std::string> calls;
  std::string hres;
  std::map<int, char const *> where; // location of the primary names
  auto mk_name_fn = [&](int salt) { return [&, salt](E e) -> TextView { calls.push_back(jint(id_of(e))); kept.push_back("h" + std::to_string(salt) + std::to_string(id_of(e))); hres = jbytes(kept.back()); return TextView{kept.back()}; }; };
  auto mk_val_fn  = [&](int salt) { return [&, salt](TextView n) -> E { calls.push_back(jbytes(n)); int k = 1 + (n.size() + salt) % N; hres = jint(k); return vals[k]; }; };
  { Ev ev("start"); ep.emit(ev); }
  // One default and how the specification sees it.
  struct Def { typename Lex::Default d; bool name = false; std::string j; };
  auto some_default = [&]() -> Def {
    Def d;
    switch (r.range(0, 4)) {
    case 0: break;
    case 1: { int k = r.range(1, N); d.d = vals[k]; d.j = Rec().s("k", "value").i("v", k).str(); break; }
    case 2: { kept.push_back(r.chance(1, 4) ? "" : "Default" + std::to_string(r.range(0, 99))); d.d = TextView{kept.back()}; d.name = true; d.j = Rec().s("k", "name").t("n", kept.back()).str(); break; }
    case 3: { d.d = typename Lex::UnknownNameHandler(mk_val_fn(r.range(0, 9))); d.j = Rec().s("k", "fn").str(); break; }
    default: { d.d = typename Lex::UnknownValueHandler(mk_name_fn(r.range(0, 9))); d.name = true; d.j = Rec().s("k", "fn").str(); break; }
    }
    return d;
  };
  auto emit_default = [&](std::vector<Def> const &ds) {
    std::string n = Rec().s("k", "same").str(), v = n;
    for (auto const &d : ds) if (!d.j.empty()) (d.name ? n : v) = d.j;
    Ev ev("defaults");
    ev.j("nd", n).j("vd", v);
    ep.emit(ev);
  };
  auto scratch = [&](std::string const &s) { // name in a buffer that is overwritten afterwards
    auto p = std::make_unique<char[]>(s.size() + 1);
    memcpy(p.get(), s.data(), s.size());
    return p;
  };
  std::unique_ptr<Lex> lex;
  { // construction
    Def a = some_default(), b = some_default();
    std::string m1 = pool[0], m2 = pool[1], m3 = pool[r.range(0, NN - 1)];
    int va = 1, vb = N > 1 ? 2 : 1;
    auto defs = [&](std::vector<std::pair<int, std::vector<std::string>>> const &ds, bool threw) {
      // The whole construction throws or not: on a throw there is no lexicon.
      if (threw) return;
      for (auto const &[v, names] : ds) {
        std::vector<std::string> js;
        for (auto const &n : names) js.push_back(jbytes(n));
        // the count after each definition is not visible, leave the final one to other events.
        Ev ev("define");
        ev.i("v", v).j("names", jlist(js)).s("thr", "");
        std::vector<int> seen;
        for (auto const &[v2, n2] : ds) { if (std::find(seen.begin(), seen.end(), v2) == seen.end()) seen.push_back(v2); if (v2 == v && &n2 == &names) break; }
        ev.i("count", seen.size());
        ep.emit(ev);
      }
    };
    bool threw = false;
    int how = r.range(0, 4);
    ep.pending("construct " + std::to_string(how));
    std::vector<std::pair<int, std::vector<std::string>>> ds;
    try {
      switch (how) {
      case 0: lex.reset(new Lex()); a = b = Def{}; break;
      case 1: lex.reset(new Lex(a.d)); b = Def{}; break;
      case 2: lex.reset(new Lex(a.d, b.d)); break;
      case 3: {
        auto p1 = scratch(m1), p2 = scratch(m2);
        lex.reset(new Lex(typename Lex::with{{vals[va], TextView{p1.get(), m1.size()}}, {vals[vb], TextView{p2.get(), m2.size()}}}, a.d, b.d));
        ds = {{va, {m1}}, {vb, {m2}}};
        break;
      }
      default: {
        auto p1 = scratch(m1), p2 = scratch(m2), p3 = scratch(m3);
        lex.reset(new Lex(typename Lex::with_multi{{vals[va], {TextView{p1.get(), m1.size()}, TextView{p3.get(), m3.size()}}}, {vals[vb], {TextView{p2.get(), m2.size()}}}}, a.d, b.d));
        ds = {{va, {m1, m3}}, {vb, {m2}}};
        break;
      }
      }
    } catch (std::invalid_argument &) {
      threw = true;
      lex.reset(new Lex(a.d, b.d));
    }
    defs(ds, threw);
    emit_default({a, b});
  }
  for (int k = 0; k < (ep.thorough ? 80 : 45); ++k) {
    int op = r.range(0, 13);
    ep.pending("lexicon op " + std::to_string(op));
    calls.clear();
    hres      = "0";
    Lex &l    = *lex;
    Lex const &c = l;
    switch (op) {
    case 0:
    case 1:
    case 2: {
      int v = r.range(1, N), n = r.range(1, 3);
      std::vector<std::string> names;
      std::vector<std::unique_ptr<char[]>> bufs;
      std::vector<TextView> tv;
      for (int i = 0; i < n; ++i) { names.push_back(r.pick(pool)); bufs.push_back(scratch(names.back())); tv.push_back(TextView{bufs.back().get(), names.back().size()}); }
      std::string thr;
      int how = r.range(0, 3);
      if (how == 3 && r.chance(1, 3)) n = 0;
      try {
        bool same = false;
        switch (how) {
        case 0: same = &(n == 1 ? l.define(vals[v], tv[0]) : n == 2 ? l.define(vals[v], tv[0], tv[1]) : l.define(vals[v], tv[0], tv[1], tv[2])) == &l; break;
        case 1: if (n == 1) { same = &l.define(typename Lex::Pair{vals[v], tv[0]}) == &l; break; } // fallthrough
        case 2: same = &(n == 1 ? l.define(typename Lex::Definition{vals[v], {tv[0]}}) : n == 2 ? l.define(typename Lex::Definition{vals[v], {tv[0], tv[1]}}) : l.define(typename Lex::Definition{vals[v], {tv[0], tv[1], tv[2]}})) == &l; break;
        default: { static std::initializer_list<TextView> const none{}; same = &(n == 0 ? l.define(vals[v], none) : n == 1 ? l.define(vals[v], {tv[0]}) : n == 2 ? l.define(vals[v], {tv[0], tv[1]}) : l.define(vals[v], {tv[0], tv[1], tv[2]})) == &l; break; }
        }
        if (!same) thr = "self";
      } catch (std::invalid_argument &) { thr = "invalid"; }
      for (size_t i = 0; i < bufs.size(); ++i) memset(bufs[i].get(), '#', names[i].size());
      std::vector<std::string> js;
      for (int i = 0; i < n; ++i) js.push_back(jbytes(names[i]));
      Ev ev("define");
      ev.i("v", v).j("names", jlist(js)).s("thr", thr).i("count", c.count());
      ep.emit(ev);
      break;
    }
    case 3: {
      Def d = some_default();
      bool s = &l.set_default(d.d) == &l;
      if (s) emit_default({d});
      break;
    }
    case 4:
    case 5:
    case 6: {
      int v = r.range(1, N);
      std::string thr;
      TextView t;
      try { t = c[vals[v]]; } catch (std::domain_error &) { thr = "domain"; }
      bool moved = false;
      bool known = false;
      for (auto const &p : c) known |= p._value == vals[v];
      if (known) { if (where.count(v)) moved = where[v] != t.data(); else where[v] = t.data(); }
      Ev ev("name");
      ev.i("v", v).t("r", t).s("thr", thr).j("calls", jlist(calls)).j("hres", hres == "0" ? "[]" : hres).b("moved", moved);
      ep.emit(ev);
      break;
    }
    case 7:
    case 8:
    case 9: {
      std::string n = r.pick(pool);
      for (char &ch : n) if (isalpha(static_cast<unsigned char>(ch)) && r.chance(1, 3)) ch ^= 0x20;
      if (r.chance(1, 6)) n += "!";
      auto buf = scratch(n);
      std::string thr;
      E e{};
      try { e = c[TextView{buf.get(), n.size()}]; } catch (std::domain_error &) { thr = "domain"; }
      Ev ev("value");
      ev.t("n", n).i("r", id_of(e)).s("thr", thr).j("calls", jlist(calls)).j("hres", hres);
      ep.emit(ev);
      break;
    }
    case 10: {
      std::vector<std::string> f, b;
      auto item = [&](typename Lex::Pair const &p) { return "[" + std::to_string(id_of(std::get<0>(p))) + "," + jbytes(std::get<1>(p)) + "]"; };
      if (r.chance(1, 2)) for (auto const &p : c) f.push_back(item(p));
      else for (auto spot = l.begin(); spot != l.end(); spot++) f.push_back(item(*spot));
      auto spot = c.end();
      if (r.chance(1, 2)) while (!(spot == c.begin())) { --spot; b.push_back("[" + std::to_string(id_of(spot->_value)) + "," + jbytes(spot->_name) + "]"); }
      else while (spot != c.begin()) { auto was = spot--; b.push_back(item(*spot)); if (was == spot) b.push_back("[]"); }
      Ev ev("iter");
      ev.j("f", jlist(f)).j("b", jlist(b)).i("count", c.count());
      ep.emit(ev);
      break;
    }
    case 11: {
      std::vector<std::string> f, b;
      auto item = [&](typename Lex::Pair const &p) { return "[" + std::to_string(id_of(p._value)) + "," + jbytes(p._name) + "]"; };
      if (r.chance(1, 2)) for (auto const &p : c.by_names()) f.push_back(item(p));
      else for (auto spot = l.begin_names(); spot != l.end_names(); spot++) f.push_back(item(*spot));
      auto spot = c.end_names();
      if (r.chance(1, 2)) while (!(spot == c.begin_names())) { --spot; b.push_back(item(*spot)); }
      else while (spot != c.begin_names()) { auto was = spot--; b.push_back(item(*spot)); if (was == spot) b.push_back("[]"); }
      Ev ev("names");
      ev.j("f", jlist(f)).j("b", jlist(b));
      ep.emit(ev);
      break;
    }
    case 12: {
      std::vector<std::string> f, d;
      for (auto const &[v, n] : c) f.push_back("[" + std::to_string(id_of(v)) + "," + jbytes(n) + "]");
      for (size_t i = 1; i < dec.size(); ++i) d.push_back(jbytes(dec[i]));
      int type = r.range(0, 3);
      std::string out;
      swoc::bwprint(out, std::string_view(type == 0 ? "{:s}" : type == 3 ? "{:S}" : type == 1 ? "{:d}" : "{}"), c);
      Ev ev("print");
      ev.j("f", jlist(f)).j("dec", jlist(d)).i("type", type == 0 ? 's' : type == 3 ? 'S' : type == 1 ? 'd' : 'g').t("out", out);
      ep.emit(ev);
      break;
    }
    case 13: {
      if (!r.chance(1, 4)) break;
      lex.reset(new Lex(std::move(*std::unique_ptr<Lex>(lex.release()))));
      ep.emit(Ev("move"));
      break;
    }
    }
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [&](Ep &ep) {
    switch (ep.id % 4) {
    case 0: drive<E32>(ep); break;
    case 1: drive<E8>(ep); break;
    case 2: drive<E64>(ep); break;
    default: drive<Plain>(ep); break;
    }
  }, 250, 4000);
}
