// Conformance driver for swoc::Errata and swoc::Rv.
#include "vt.h"
#include "swoc/Errata.h"
#include "swoc/bwf_std.h"
#include <array>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
using namespace vt;
using swoc::Errata;
using swoc::Rv;
using swoc::TextView;
using Severity = Errata::Severity;

static std::array<std::string, 4> CODES{{"Alpha", "some longer text", "", "x{}y"}};
struct Cat : std::error_category {
  char const *name() const noexcept override { return "vt"; }
  std::string message(int n) const override { return n >= 1 && n <= int(CODES.size()) ? CODES[n - 1] : "none"; }
} CAT;
static std::error_code code(int c) { return c ? std::error_code(c, CAT) : std::error_code(); }

constexpr int REGS = 4, RVS = 2, ALL = REGS + RVS;
static std::vector<std::string> SUNK;
struct MySink : Errata::Sink {
  int k;
  MySink(int k) : k(k) {}
  void operator()(Errata const &e) const override { std::string s; swoc::bwprint(s, "{}", e); SUNK.push_back(Rec().i("k", k).t("t", s).i("n", e.length()).str()); }
};

struct Drive {
  Ep &ep; Rng &r;
  std::unique_ptr<Errata> er[REGS];
  std::unique_ptr<Rv<std::string>> rv[RVS];
  std::vector<std::string> names; std::vector<TextView> name_views;
  std::string dglue = "\n", dsglue = ": ", dindent = "  ", asev = "{}", acode = "{}", aboth = "{}: {}", psev, pcode, pboth;
  Drive(Ep &e) : ep(e), r(e.rng) {
    for (int n = r.range(0, 2); n--;) add_sink();
    for (auto &p : rv) p.reset(new Rv<std::string>);
    for (int n = r.range(0, 4); n--;) names.push_back(word(6));
    for (auto &n : names) name_views.emplace_back(n);
    Errata::SEVERITY_NAMES = swoc::MemSpan<TextView const>(name_views.data(), name_views.size());
    Errata::DEFAULT_SEVERITY = Severity(r.range(0, 4));
    Errata::FAILURE_SEVERITY = Severity(r.range(1, 4));
    if (r.chance(1, 2)) Errata::FILTER_SEVERITY = Severity(r.range(0, 3));
    if (r.chance(1, 3)) {
      psev = word(4), pcode = word(4), pboth = word(4);
      asev = psev + asev, acode = pcode + acode, aboth = pboth + aboth;
      Errata::AUTOTEXT_SEVERITY = asev, Errata::AUTOTEXT_CODE = acode, Errata::AUTOTEXT_SEVERITY_CODE = aboth;
    }
    if (r.chance(1, 3)) texts();
    Ev ev("start");
    std::vector<std::string> c; for (auto &s : CODES) c.push_back(jbytes(s));
    ev.i("regs", ALL).i("rvs", RVS).j("g", globals()).j("codes", jlist(c)); ep.emit(ev);
  }
  void texts() {
    dglue = word(3), dsglue = word(3), dindent = word(3);
    static std::vector<std::unique_ptr<std::string>> keep; // the defaults are views and used as such.
    auto stable = [&](std::string const &s) { keep.emplace_back(new std::string(s)); return TextView(*keep.back()); };
    Errata::DEFAULT_ANNOTATION_GLUE_TEXT = stable(dglue), Errata::DEFAULT_SEVERITY_GLUE_TEXT = stable(dsglue), Errata::DEFAULT_INDENT_TEXT = stable(dindent);
  }
  int sinks = 0;
  void add_sink() {
    int k = ++sinks;
    switch (r.range(0, 2)) {
    case 0: Errata::register_sink(Errata::Sink::Handle(new MySink(k))); break;
    case 1: Errata::register_sink([k](Errata const &e) { MySink{k}(e); }); break;
    default: Errata::SinkHandler h = [k](Errata const &e) { MySink{k}(e); }; Errata::register_sink(h); h = nullptr; break;
    }
  }
  std::string globals() {
    std::vector<std::string> n; for (auto &s : names) n.push_back(jbytes(s));
    return Rec().i("def", Errata::DEFAULT_SEVERITY).i("fail", Errata::FAILURE_SEVERITY).i("filter", Errata::FILTER_SEVERITY).j("names", jlist(n))
      .i("sinks", sinks).t("glue", dglue).t("sglue", dsglue).t("indent", dindent).t("asev", psev).t("acode", pcode).t("aboth", pboth).str();
  }
  std::string word(int n) { std::string s; for (int k = r.range(0, n); k--;) s += char("abc :\n"[r.range(0, 5)]); return s; }
  std::string text() { // up to more than a block of the arena
    int n = r.chance(1, 12) ? r.range(100, 1200) : r.chance(1, 8) ? 0 : r.range(1, 30);
    std::string s; for (int i = 0; i < n; ++i) s += char('a' + i % 26);
    if (n > 2 && r.chance(1, 4)) s[n / 2] = '{', s[n / 2 + 1] = '}';
    return s;
  }
  bool has(int i) { return i >= REGS || er[i]; }
  Errata &at(int i) { return i >= REGS ? rv[i - REGS]->errata() : *er[i]; }
  std::string obs(Errata &e) {
    Errata const &k = e;
    std::vector<std::string> n, m;
    for (auto const &a : k) n.push_back(note(a));
    for (auto &a : e) m.push_back(note(a));
    bool agree = n == m && k.is_ok() == bool(k) && k.is_ok() == !!k;
    if (!n.empty()) agree = agree && note(k.front()) == n.front() && note(k.back()) == n.back() && &*k.begin() == &k.front();
    std::error_code c = k.code();
    agree = agree && (c.value() == 0 ? c == Errata::DEFAULT_CODE : &c.category() == &CAT);
    return Rec().j("notes", jlist(n)).i("n", k.length()).b("empty", k.empty()).b("agree", agree).b("ok", k.is_ok()).b("hassev", k.has_severity()).i("sev", k.severity())
      .i("code", c.value()).t("glue", k.annotation_glue_text()).t("aglue", k.annotation_severity_glue_text()).t("sglue", k.severity_glue_text()).t("indent", k.indent_text()).str();
  }
  std::string note(Errata::Annotation const &a) {
    int s = a.has_severity() ? int(a.severity()) : -1;
    int d = a.severity(Severity(77));
    return Rec().t("t", a.text()).i("s", s < 0 ? (d == 77 ? -1 : -99) : d == s ? s : -99).i("l", a.level()).str();
  }
  Ev ev(char const *op, int i) { ep.pending(op); SUNK.clear(); Ev e(op); e.i("i", i + 1); return e; }
  void done(Ev &e, int i, int j = -1) {
    e.j("sunk", jlist(SUNK));
    if (has(i)) { auto o = obs(at(i)); e.j("o", o); }
    if (j >= 0) { auto o = obs(at(j)); e.i("j", j + 1).j("o2", o); }
    ep.emit(e);
  }
  void make(int i) {
    Ev e = ev("new", i);
    std::string t = text(), f;
    Severity s(r.range(0, 5));
    int c = r.range(1, CODES.size()), x = r.range(-50, 50);
    auto ec = code(c);
    bool any = true, note = false; int hs = -1, hc = 0; char const *a = "";
    Errata *p = nullptr;
    std::string_view sv = t;
    switch (r.range(0, 14)) {
    case 0: p = new Errata; any = false; break;
    case 1: p = new Errata(ec); hc = c; break;
    case 2: p = new Errata(ec, Errata::AUTO); hc = c, note = true, a = "code"; break;
    case 3: p = new Errata(s); hs = s; break;
    case 4: p = new Errata(s, Errata::AUTO); hs = s, note = true, a = "sev"; break;
    case 5: p = new Errata(ec, s); hc = c, hs = s; break;
    case 6: p = new Errata(ec, s, Errata::AUTO); hc = c, hs = s, note = true, a = "both"; break;
    case 7: p = new Errata(ec, s, sv); hc = c, hs = s, note = true; break;
    case 8: p = new Errata(s, sv); hs = s, note = true; break;
    case 9: p = new Errata(ec, sv); hc = c, hs = -2, note = true; break;
    case 10: p = new Errata(sv); hs = -2, note = true; break;
    case 11: p = new Errata(ec, s, "<{}>{}", sv, x); f = "1"; hc = c, hs = s, note = true; break;
    case 12: p = new Errata(s, "<{}>{}", sv, x); f = "1"; hs = s, note = true; break;
    case 13: p = new Errata(ec, "<{}>{}", sv, x); f = "1"; hc = c, hs = -2, note = true; break;
    default: p = new Errata("<{}>{}", sv, x); f = "1"; hs = -2, note = true; break;
    }
    er[i].reset(p);
    if (!f.empty()) t = "<" + t + ">" + std::to_string(x);
    e.b("any", any).b("note", note).i("s", hs).i("c", hc).s("auto", a).t("t", t);
    done(e, i);
  }
  void note(int i) {
    Ev e = ev("note", i);
    std::string t = text();
    std::string_view sv = t;
    Severity s(r.range(0, 5));
    int c = r.range(1, CODES.size()), x = r.range(-50, 50), hs = -1;
    auto ec = code(c);
    bool f = false; char const *a = ""; bool same = true;
    auto go = [&](auto &z) {
      auto *self = &z;
      switch (r.range(0, 6)) {
      case 0: self = &z.note(sv); break;
      case 1: self = &z.note(s, sv); hs = s; break;
      case 2: self = &z.note(ec); a = "code"; break;
      case 3: self = &z.note(ec, s); hs = s; a = "both"; break;
      case 4: self = &z.note("<{}>{}", sv, x); f = true; break;
      case 5: self = &z.note(s, "<{}>{}", sv, x); hs = s; f = true; break;
      default:
        if constexpr (std::is_same_v<std::decay_t<decltype(z)>, Errata>) {
          switch (r.range(0, 5)) {
          case 0: self = &z.note(s); hs = s; a = "sev"; break;
          case 1: self = &z.note_v("<{}>{}", std::forward_as_tuple(sv, x)); f = true; break;
          case 2: self = &z.note_v(s, "<{}>{}", std::forward_as_tuple(sv, x)); hs = s; f = true; break;
          case 3: self = &z.note_s({}, sv); break;
          case 4: self = &z.note_s(s, sv); hs = s; break;
          default: if (z.empty()) self = &z.note(sv); else { // text of another annotation
              t = std::string(z.front().text()); if (r.chance(1, 2)) self = &z.note(z.front().text()); else self = &z.note("{}", z.front().text()); }
          }
        } else self = &z.note(sv);
      }
      same = self == &z;
    };
    if (i >= REGS && r.chance(2, 3)) go(*rv[i - REGS]); else go(at(i));
    if (f) t = "<" + t + ">" + std::to_string(x);
    if (!same) t += "?";
    e.i("s", hs).i("c", c).s("auto", a).t("t", t);
    done(e, i);
  }
  void step() {
    int i = r.range(0, ALL - 1), j = r.range(0, ALL - 1);
    if (!has(i)) {
      if (j < REGS && has(j) && r.chance(1, 3)) { Ev e = ev("move", i); er[i].reset(new Errata(std::move(*er[j]))); done(e, i, j); }
      else make(i);
      return;
    }
    Errata &x = at(i);
    switch (r.range(0, 24)) {
    case 0: case 1: case 2: case 3: case 4: case 5: note(i); break;
    case 6: if (i < REGS) { Ev e = ev("drop", i); er[i].reset(); done(e, i); }
      else { Ev e = ev("clear", i); rv[i - REGS]->clear(); done(e, i); } break;
    case 7: if (r.chance(1, 2)) { Ev e = ev("sink", i); x.sink(); done(e, i); } else { Ev e = ev("clear", i); x.clear(); done(e, i); } break;
    case 8: case 9: case 10: if (has(j) && x.length() + at(j).length() < 14) {
        bool copy = i == j || r.chance(1, 2);
        Ev e = ev(copy ? "copy" : "take", i);
        if (i >= REGS && r.chance(1, 2)) { copy ? rv[i - REGS]->note(at(j)) : rv[i - REGS]->note(std::move(at(j))); }
        else { copy ? x.note(at(j)) : x.note(std::move(at(j))); }
        done(e, i, j); } break;
    case 11: if (has(j)) {
        Ev e = ev("moveassign", i);
        if (i != j && i >= REGS && r.chance(1, 2)) *rv[i - REGS] = std::move(at(j));
        else x = std::move(at(j));
        done(e, i, j); } break;
    case 12: { Ev e = ev("severity", i); bool a = r.chance(1, 2); Severity s(r.range(0, 5)); a ? x.assign(s) : x.update(s); e.s("f", a ? "assign" : "update").i("s", s); done(e, i); } break;
    case 13: { Ev e = ev("code", i); int c = r.range(0, CODES.size()); x.assign(code(c)); e.i("c", c); done(e, i); } break;
    case 14: if (!x.empty()) { Ev e = ev("noteset", i); int k = r.range(1, x.length()), s = r.range(0, 5); auto spot = x.begin(); for (int n = 1; n < k; ++n) ++spot; spot->assign(Severity(s)); e.i("k", k).i("s", s); done(e, i); } break;
    case 15: { Ev e = ev("text", i); std::string t = word(4); bool fin = false; char const *f;
        switch (r.range(0, 4)) {
        case 0: x.assign_annotation_glue_text(t); f = "glue"; break;
        case 1: fin = r.chance(1, 2); x.assign_annotation_glue_text(t, fin); f = "glue"; break;
        case 2: x.assign_annotation_severity_glue_text(t); f = "aglue"; break;
        case 3: x.assign_severity_glue_text(t); f = "sglue"; break;
        default: x.assign_indent_text(t); f = "indent"; break;
        }
        e.s("f", f).b("fin", fin).t("t", t); t.assign(t.size(), '!'); done(e, i); } break;
    case 16: case 17: { Ev e = ev("print", i);
        std::string s; swoc::bwprint(s, "{}", x); std::ostringstream o; o << x;
        std::vector<char> buf(r.range(0, 200)); swoc::FixedBufferWriter w{buf.data(), buf.size()}; w.print("{}", x);
        e.t("t", s).t("stream", o.str()).i("n", w.extent()).i("cap", buf.size()).t("part", w.view()).j("sunk", "[]"); ep.emit(e); } break;
    case 18: { if (!r.chance(1, 3)) break; if (sinks < 4 && r.chance(1, 3)) add_sink(); else if (r.chance(1, 2)) Errata::FILTER_SEVERITY = Severity(r.range(0, 4)); else texts(); Ev e("global"); e.j("g", globals()); ep.emit(e); } break;
    default: rvs(r.range(0, RVS - 1)); break;
    }
  }
  void rvs(int k) {
    int i = REGS + k;
    auto &p = rv[k];
    std::string v = text();
    int j = r.range(0, REGS - 1);
    switch (r.range(0, 6)) {
    case 0: { Ev e = ev("value", i); bool ok = true; std::string c = v;
        switch (r.range(0, 4)) {
        case 0: ok = &(*p = v) == &p->result(); break;
        case 1: ok = &(*p = std::move(c)) == &p->result(); break;
        case 2: ok = &p->assign(v) == p.get(); break;
        case 3: ok = &p->assign(std::move(c)) == p.get(); break;
        default: { auto &[a, b] = *p; a = v; ok = &b == &p->errata(); } break;
        }
        e.i("r", k + 1).t("v", v).t("res", p->result()).b("ok", ok).j("sunk", jlist(SUNK)); ep.emit(e); } break;
    case 1: case 2: { // the old content is removed first, by clear.
        if (!er[j]) break;
        p->clear();
        Ev e = ev("remake", i);
        std::string c = v;
        switch (r.range(0, 5)) {
        case 0: p.reset(new Rv<std::string>(v, std::move(*er[j]))); break;
        case 1: p.reset(new Rv<std::string>(std::move(c), std::move(*er[j]))); break;
        case 2: p.reset(new Rv<std::string>(std::move(*er[j]))); v.clear(); break;
        case 3: p.reset(new Rv<std::string>(swoc::MakeRv(std::move(c), std::move(*er[j])))); break;
        case 4: p.reset(new Rv<std::string>(v)); j = -1; break;
        default: { auto f = [&]() -> Rv<std::string> { return {v, std::move(*er[j])}; }; auto q = std::make_unique<Rv<std::string>>(f()); p = std::make_unique<Rv<std::string>>(std::move(*q)); } break;
        }
        e.i("r", k + 1).t("v", v).t("res", p->result());
        if (j < 0) e.i("j", 0);
        done(e, i, j); } break;
    case 3: { Ev e = ev("get", i); Rv<std::string> const &q = *p; std::string const &conv = q; auto const &[a, b] = q; auto &[c, d] = *p; Errata &f = *p; auto &&[x, y] = std::move(*p);
        e.i("r", k + 1).t("res", conv).b("ok", a == conv && c == conv && x == conv && q.result() == conv && &b == &q.errata() && &d == &q.errata() && &f == &q.errata() && &y == &f && q.is_ok() == f.is_ok()); done(e, i); } break;
    default: break;
    }
  }
  void run() {
    for (int n = ep.thorough ? 60 : 35; n--;) step();
    for (int i = 0; i < REGS; ++i) if (er[i]) { Ev e = ev("drop", i); er[i].reset(); done(e, i); }
    for (int i = REGS; i < ALL; ++i) { Ev e = ev("drop", i); rv[i - REGS].reset(); e.j("sunk", jlist(SUNK)); ep.emit(e); }
  }
};
int main(int argc, char **argv) { return vt::main(argc, argv, [](Ep &ep) { Drive(ep).run(); }, 600, 6000); }
