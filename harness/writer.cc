// Recorder for BufferWriter / FixedBufferWriter / LocalBufferWriter / ArenaWriter.
#include "vt.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_std.h"
#include "swoc/ArenaWriter.h"
#include <memory>
#include <sstream>
using namespace swoc;
using vt::Ep;
using vt::Ev;
using vt::jbytes;
using vt::jlist;
using vt::Rec;

static std::string text_of(vt::Rng &r, int max) {
  std::string s;
  int n = r.range(0, max);
  for (int i = 0; i < n; ++i) s += static_cast<char>(r.chance(1, 10) ? r.range(0, 255) : r.range('a', 'z'));
  return s;
}

/// A writer which has only what the base class requires.
struct CharWriter : public BufferWriter {
  std::string s;
  BufferWriter &write(char c) override { s += c; return *this; }
  using BufferWriter::write;
  const char *data() const override { return s.data(); }
  bool error() const override { return false; }
  size_t capacity() const override { return s.size() + 10; }
  size_t extent() const override { return s.size(); }
  bool commit(size_t) override { return true; }
  BufferWriter &discard(size_t n) override { s.resize(s.size() - std::min(n, s.size())); return *this; }
  BufferWriter &restrict(size_t) override { return *this; }
  BufferWriter &restore(size_t) override { return *this; }
  BufferWriter &copy(size_t, size_t, size_t) override { return *this; }
  std::ostream &operator>>(std::ostream &stream) const override { return stream << s; }
};

static std::string obs(FixedBufferWriter &w, std::string_view mem) {
  BufferWriter &b = w;
  char *aux       = b.aux_data();
  auto sp         = b.aux_span();
  TextView v      = w.view();
  std::string_view v2 = w;
  TextView v3     = w;
  Rec r;
  r.i("ext", b.extent()).i("size", b.size()).i("cap", b.capacity()).i("rem", b.remaining()).b("err", b.error()).t("view", v);
  r.i("aux", aux ? aux - b.data() : -1).i("span", v2 == v && v3 == v && sp.data() == aux ? static_cast<long>(sp.size()) : -7).t("mem", mem);
  return r.str();
}

struct Fixed {
  Ep &ep;
  vt::Rng &r;
  std::unique_ptr<char[]> heap;
  size_t k = 0;
  std::unique_ptr<FixedBufferWriter> w;
  std::unique_ptr<char[]> heap2;
  size_t held = 0;
  char *base  = nullptr;
  bool local  = false;
  Fixed(Ep &e) : ep(e), r(e.rng) {}
  std::string o() { return obs(*w, {base, w->data() ? k : 0}); }
  void fresh() {
    held  = 0;
    local = r.chance(1, 5);
    w.reset();
    if (local) {
      switch (r.range(0, 3)) {
      case 0: w = std::make_unique<LocalBufferWriter<1>>(); break;
      case 1: w = std::make_unique<LocalBufferWriter<7>>(); break;
      case 2: w = std::make_unique<LocalBufferWriter<16>>(); break;
      default: w = std::make_unique<LocalBufferWriter<30>>(); break;
      }
      k    = w->capacity();
      base = const_cast<char *>(w->data());
    } else {
      k = r.chance(1, 8) ? 0 : r.range(1, 24);
      heap.reset(new char[k]);
      base = heap.get();
      if (k == 0) base = nullptr;
      switch (r.range(0, 3)) {
      case 0: w = std::make_unique<FixedBufferWriter>(base, k); break;
      case 1: w = std::make_unique<FixedBufferWriter>(MemSpan<char>{base, k}); break;
      case 2: w = std::make_unique<FixedBufferWriter>(MemSpan<void>{base, k}); break;
      case 3: if (k == 0) w = std::make_unique<FixedBufferWriter>(nullptr); else { w = std::make_unique<FixedBufferWriter>(nullptr); w->assign(MemSpan<char>{base, k}); } break;
      }
    }
    for (size_t i = 0; i < k; ++i) base[i] = static_cast<char>(r.range(0, 255));
    ep.emit(Ev("new").t("mem", {base, k}).j("o", o()));
  }
  void step() {
    BufferWriter &b = *w;
    switch (r.range(0, 15)) {
    case 0: case 1: case 2: case 3: {
      std::string t = text_of(r, r.chance(1, 4) ? k + 3 : 6);
      ep.pending("write");
      switch (r.range(0, 4)) {
      case 0: b.write(t.data(), t.size()); break;
      case 1: w->write(std::string_view(t)); break;
      case 2: b.write(MemSpan<void const>{t.data(), t.size()}); break;
      case 3: t.resize(1, 'q'); if (r.chance(1, 2)) b.write(t[0]); else w->write(t[0]); break;
      case 4: w->write(t.data(), t.size()); break;
      }
      ep.emit(Ev("write").t("t", t).j("o", o()));
    } break;
    case 4: { // fill the unused part then commit
      std::string t = text_of(r, w->remaining());
      char *p       = b.aux_data();
      if (p) memcpy(p, t.data(), t.size());
      size_t n = r.range(0, t.size());
      if (!p) { t.clear(); n = 0; }
      ep.pending("commit");
      b.commit(n);
      ep.emit(Ev("poke").t("t", t).i("n", n).j("o", o()));
    } break;
    case 5: { // sub writer
      std::string t = text_of(r, w->remaining() + 2);
      ep.pending("sub");
      FixedBufferWriter sub(w->aux_data(), w->remaining());
      sub.write(t);
      Ev ev("sub");
      ev.t("t", t).j("so", Rec().i("ext", sub.extent()).b("err", sub.error()).str());
      bool keep = r.chance(1, 2);
      if (keep) w->commit(sub.size());
      ep.emit(ev.b("keep", keep).j("o", o()));
    } break;
    case 6: { size_t n = r.range(0, 4); ep.pending("commit"); bool ok = b.commit(n); ep.emit(Ev("commit").i("n", n).b("ok", ok).j("o", o())); } break;
    case 7: { size_t n = r.range(0, r.chance(1, 6) ? 60 : 5); ep.pending("discard"); b.discard(n); ep.emit(Ev("discard").i("n", n).j("o", o())); } break;
    case 8: if (r.chance(1, 3)) { ep.pending("clear"); w->clear(); ep.emit(Ev("clear").j("o", o())); } break;
    case 9: {
      size_t n = r.range(0, w->capacity() + 1);
      if (n > 4 && r.chance(2, 3)) n = r.range(0, 3);
      ep.pending("restrict");
      bool th = false;
      try { b.restrict(n); held += n; } catch (std::invalid_argument const &) { th = true; }
      ep.emit(Ev("restrict").i("n", n).b("throws", th).j("o", o()));
    } break;
    case 10: if (held) { size_t n = r.range(0, held); if (r.chance(1, 2)) n = held; ep.pending("restore"); b.restore(n); held -= n; ep.emit(Ev("restore").i("n", n).j("o", o())); } break;
    case 11: case 12: { size_t d = r.range(0, k + 1), s = r.range(0, k + 1), n = r.range(0, r.chance(1, 3) ? k + 2 : 5); ep.pending("copy"); b.copy(d, s, n); ep.emit(Ev("copy").i("d", d).i("s", s).i("n", n).j("o", o())); } break;
    case 13: if (!local) {
      bool ctor = r.chance(1, 2);
      ep.pending("move");
      auto nw = ctor ? std::make_unique<FixedBufferWriter>(std::move(*w)) : std::make_unique<FixedBufferWriter>(nullptr);
      if (!ctor) *nw = std::move(*w);
      std::string old = obs(*w, {});
      std::swap(w, nw);
      ep.emit(Ev("move").j("o", o()).j("old", old));
    } break;
    case 14: {
      std::ostringstream a, c;
      ep.pending("stream");
      a << b;
      b >> c;
      LocalBufferWriter<64> pw;
      pw.print("{}", *w);
      std::string d(pw.view());
      ep.emit(Ev("stream").j("s", jlist({jbytes(a.str()), jbytes(c.str()), jbytes(d)})).j("o", o()));
    } break;
    case 15:
      if (r.chance(1, 12)) { w->detach(); held = 0; ep.emit(Ev("detach").j("o", o())); fresh(); }
      else if (r.chance(1, 6)) {
        size_t n = r.range(0, 2);
        bool th  = false;
        try { FixedBufferWriter x(nullptr, n); } catch (std::invalid_argument const &) { th = true; }
        ep.emit(Ev("nullbuf").i("n", n).b("throws", th));
      } else {
        CharWriter cw;
        std::string all;
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
          std::string t = text_of(r, 5);
          if (r.chance(1, 2)) cw.write(t.data(), t.size()); else cw.write(MemSpan<void const>{t.data(), t.size()});
          all += t;
        }
        ep.emit(Ev("base").t("t", all).t("out", cw.s));
      }
      break;
    }
  }
};

static void fixed_ops(Ep &ep) {
  Fixed f(ep);
  for (int k = 0; k < 3; ++k) {
    f.fresh();
    int n = ep.rng.range(3, 16);
    for (int i = 0; i < n; ++i) f.step();
  }
}

static void arena_ops(Ep &ep) {
  auto &r = ep.rng;
  char st[200];
  std::unique_ptr<MemArena> ap;
  switch (r.range(0, 2)) {
  case 0: ap = std::make_unique<MemArena>(); break;
  case 1: ap = std::make_unique<MemArena>(r.range(1, 300)); break;
  default: ap = std::make_unique<MemArena>(MemSpan<void>{st, sizeof st}); break;
  }
  MemArena &arena = *ap;
  std::vector<MemSpan<char>> spans;
  auto texts = [&] {
    std::vector<std::string> v;
    for (auto &s : spans) v.push_back(jbytes({s.data(), s.size()}));
    return jlist(v);
  };
  auto alloc = [&] {
    std::string t = text_of(r, r.chance(1, 4) ? 300 : 20);
    auto sp       = arena.alloc_span<char>(t.size());
    memcpy(sp.data(), t.data(), t.size());
    spans.push_back(sp);
    ep.emit(Ev("aalloc").t("t", t).j("texts", texts()));
  };
  for (int k = 0; k < 4; ++k) {
    if (r.chance(1, 2)) alloc();
    auto wp = std::make_unique<ArenaWriter>(arena);
    size_t held = 0; // capacity taken by restrict
#define w (*wp)
    auto emit = [&](Ev &ev) {
      Rec o;
      o.i("ext", w.extent()).i("size", w.size()).i("cap", w.capacity()).i("rem", w.remaining()).b("err", w.error()).t("view", w.view());
      auto rem = arena.remnant();
      ep.emit(ev.j("o", o.str()).b("atrem", w.data() == rem.data()).i("left", rem.size()).b("aux", w.aux_data() == (w.extent() < w.capacity() ? w.data() + w.extent() : nullptr) && w.aux_span().size() == w.remaining()).j("texts", texts()));
    };
    { Ev ev("anew"); emit(ev); }
    int n = r.range(1, 9);
    for (int i = 0; i < n; ++i) {
      switch (r.range(0, 9)) {
      case 6: {
        size_t n = r.chance(1, 2) ? r.range(0, 8) : r.chance(1, 2) ? w.remaining() : r.range(0, w.capacity() + 2);
        bool th  = false;
        ep.pending("arestrict");
        try { static_cast<BufferWriter &>(w).restrict(n); held += n; } catch (std::invalid_argument const &) { th = true; }
        Ev ev("arestrict");
        ev.i("n", n).b("throws", th);
        emit(ev);
      } break;
      case 7: if (held) {
        size_t n = r.chance(2, 3) ? held : r.range(0, held);
        ep.pending("arestore");
        static_cast<BufferWriter &>(w).restore(n);
        held -= n;
        Ev ev("arestore");
        ev.i("n", n);
        emit(ev);
        if (w.remaining() < 250 || (i < 3 && r.chance(1, 25))) { // use all of it
          std::string t(w.remaining(), 'q');
          w.write(t);
          Ev ev("awrite");
          ev.t("t", t);
          emit(ev);
        }
      } break;
      case 8: {
        size_t d = r.range(0, 12), s = r.range(0, 12), n = r.range(0, 9);
        ep.pending("acopy");
        static_cast<BufferWriter &>(w).copy(d, s, n);
        Ev ev("acopy");
        ev.i("d", d).i("s", s).i("n", n);
        emit(ev);
      } break;
      case 9: {
        int how = r.range(0, 3);
        ep.pending("amisc");
        Ev ev("amisc");
        bool ok = true;
        if (how == 0) w.clear();
        else if (how == 1) { auto nw = std::make_unique<ArenaWriter>(std::move(w)); ok = w.extent() == 0 && w.capacity() == 0 && w.data() == nullptr; wp = std::move(nw); }
        else if (how == 2) { std::ostringstream o, q; o << w; w >> q; ok = o.str() == w.view() && q.str() == w.view(); }
        else if (held == 0) w.detach();
        else how = 4;
        ev.i("how", how).b("ok", ok);
        emit(ev);
      } break;
      case 0: case 1: {
        std::string t = text_of(r, r.chance(1, 15) ? 2000 : r.chance(1, 3) ? 150 : 12);
        ep.pending("awrite");
        if (r.chance(1, 3)) w.write(std::string_view(t)); else if (r.chance(1, 2)) static_cast<BufferWriter &>(w).write(t.data(), t.size()); else for (char c : t) w.write(c);
        Ev ev("awrite");
        ev.t("t", t);
        emit(ev);
      } break;
      case 2: case 3: { // formatted
        std::string t = text_of(r, r.chance(1, 4) ? 300 : 12);
        ep.pending("aprint");
        std::string x;
        if (r.chance(1, 2)) { w.print("<{}|{}>", t, t.size()); x = "<" + t + "|" + std::to_string(t.size()) + ">"; }
        else { int wd = r.range(0, 60); w.print("{:>" + std::to_string(wd) + "}", t); x = (wd > static_cast<int>(t.size()) ? std::string(wd - t.size(), ' ') : "") + t; }
        Ev ev("awrite");
        ev.t("t", x);
        emit(ev);
      } break;
      case 4: { // direct use of the unused part
        size_t was    = w.remaining();
        std::string t = text_of(r, was > 40 && r.chance(2, 3) ? 30 : was + 20);
        if (t.size() <= was) memcpy(w.aux_data(), t.data(), t.size());
        ep.pending("acommit");
        if (t.empty()) break;
        bool ok = w.commit(t.size());
        Ev ev("acommit");
        ev.t("t", t).i("was", was).b("ok", ok);
        emit(ev);
      } break;
      case 5: { size_t d = r.range(0, 10); w.discard(d); Ev ev("adiscard"); ev.i("n", d); emit(ev); } break;
      }
    }
    if (held) { w.restore(held); Ev ev("arestore"); ev.i("n", held); emit(ev); }
    if (r.chance(3, 4)) { // keep the text
      size_t x = w.extent();
      ep.pending("akeep");
      auto sp = arena.alloc_span<char>(x);
      std::string got(sp.data(), sp.size());
      spans.push_back(sp);
      ep.emit(Ev("akeep").t("got", got).j("texts", texts()));
    } else alloc();
#undef w
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [](Ep &ep) {
    if (ep.only == "fixed") fixed_ops(ep);
    else arena_ops(ep);
  }, 300, 4000);
}
