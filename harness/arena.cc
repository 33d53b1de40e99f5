// Conformance driver for swoc::MemArena.
#include "vt.h"
#include "swoc/MemArena.h"
#include <map>
#include <memory>
#include <memory_resource>
#include <sanitizer/allocator_interface.h>
using namespace vt;
using swoc::MemArena;
using swoc::MemSpan;

struct Driver {
  Ep &ep;
  MemArena *arena = nullptr;
  std::unique_ptr<MemArena> holder;
  bool self = false;
  alignas(64) char guard_static[16 + 3000 + 16];
  size_t static_size = 0;
  bool has_static    = false;
  std::map<char const *, long> ids; // block data start -> id
  long next_id = 1;
  static constexpr long STATIC_ID = 1000;
  struct A { long id; char *p; size_t n; unsigned char pat; bool frozen; };
  std::vector<A> live;
  long next_alloc = 1;
  long leaked     = 0;

  explicit Driver(Ep &e) : ep(e) { memset(guard_static, 0xA5, sizeof guard_static); }

  char *sdata() { return guard_static + 16; }
  static size_t bsize(MemArena::Block const &b) { return b.remaining() + (b.allocated_data_end() - b.data()); }
  bool is_static(char const *data) { return has_static && data == sdata() + sizeof(MemArena::Block); }

  void scan(long &dead) {
    std::map<char const *, long> now;
    int guard = 0;
    auto one  = [&](MemArena::Block const &b) {
      char const *d = b.data();
      if (is_static(d)) now[d] = STATIC_ID;
      else if (auto s = ids.find(d); s != ids.end()) now[d] = s->second;
      else now[d] = next_id++;
      if (!is_static(d) && !__sanitizer_get_ownership(reinterpret_cast<void const *>(d - sizeof(MemArena::Block)))) ++dead;
    };
    for (auto it = arena->begin(); it != arena->end() && guard < 500; ++it, ++guard) one(*it);
    for (auto it = arena->frozen_begin(); it != arena->frozen_end() && guard < 500; ++it, ++guard) one(*it);
    for (auto &[d, id] : ids)
      if (!now.count(d) && id != STATIC_ID && __sanitizer_get_ownership(d - sizeof(MemArena::Block))) ++leaked;
    ids = now;
  }
  template <typename F> std::string blocks(F first, F last) {
    std::vector<std::string> r;
    int guard = 0;
    for (auto it = first; it != last && guard < 500; ++it, ++guard)
      r.push_back("[" + std::to_string(ids[it->data()]) + "," + std::to_string(bsize(*it)) + "]");
    return jlist(r);
  }
  // (block, offset, size) of a span. A one past the end pointer of a block is in the block.
  std::string where(char const *p, size_t n) {
    for (auto it = arena->begin(); it != arena->end(); ++it)
      if (it->data() <= p && p <= it->data() + bsize(*it) && (n == 0 || p < it->data() + bsize(*it)))
        return "[" + std::to_string(ids[it->data()]) + "," + std::to_string(p - it->data()) + "," + std::to_string(n) + "]";
    return "[0,0," + std::to_string(n) + "]";
  }
  std::string corrupt() {
    std::vector<long> bad;
    for (auto &a : live) {
      for (size_t i = 0; i < a.n; ++i)
        if (static_cast<unsigned char>(a.p[i]) != static_cast<unsigned char>(a.pat + i)) { bad.push_back(a.id); break; }
    }
    return jints(bad);
  }
  std::string obs() {
    long dead = 0;
    scan(dead);
    auto rem = arena->remnant();
    Rec r;
    r.j("act", blocks(arena->begin(), arena->end())).j("frz", blocks(arena->frozen_begin(), arena->frozen_end()));
    r.j("rem", where(static_cast<char *>(rem.data()), rem.size()));
    r.i("remaining", arena->remaining()).i("size", arena->size()).i("allocated", arena->allocated_size()).i("reserved", arena->reserved_size());
    r.j("corrupt", corrupt()).i("leaked", leaked).i("dead", dead);
    return r.str();
  }
  static size_t padding(void const *p, size_t align) { return (align - (reinterpret_cast<uintptr_t>(p) & (align - 1))) & (align - 1); }
  size_t rempad(size_t align) { auto r = arena->remnant(); return r.data() ? padding(r.data(), align) : 0; }

  void record(char *p, size_t n, bool fill = true) {
    A a{next_alloc++, p, n, static_cast<unsigned char>(ep.rng.next()), false};
    if (fill) for (size_t i = 0; i < n; ++i) a.p[i] = static_cast<char>(a.pat + i);
    live.push_back(a);
  }
  void alloc(size_t n, size_t align, int how) {
    char what[80];
    snprintf(what, sizeof what, "alloc n=%zu align=%zu how=%d", n, align, how);
    ep.pending(what);
    size_t pad = rempad(align);
    MemSpan<void> s;
    bool same = true;
    switch (how) {
    case 1: {
      std::pmr::memory_resource *mr = arena;
      s = MemSpan<void>(mr->allocate(n, align), n);
      // release of memory has no effect: the next observation shows the same arena.
      if (ep.rng.chance(1, 3)) mr->deallocate(s.data(), n, align);
      MemArena other(64);
      same = mr->is_equal(*arena) && !mr->is_equal(other) && !other.is_equal(*mr) && !mr->is_equal(*std::pmr::new_delete_resource());
      break;
    }
    case 2: { auto t = arena->alloc_span<uint64_t>(n / 8); n = n / 8 * 8; s = MemSpan<void>(t.data(), t.count() * sizeof(uint64_t)); break; }
    case 3: { struct T { alignas(32) char x[96]; }; T *t = arena->make<T>(); n = sizeof(T); s = MemSpan<void>(t, sizeof(T)); break; }
    default: s = arena->alloc(n, align); break;
    }
    long dead = 0;
    scan(dead);
    Ev ev("alloc");
    ev.b("same", same);
    char *p = static_cast<char *>(s.data());
    ev.i("n", n).i("align", align).i("pad", pad).j("r", where(p, s.size())).i("amod", n ? reinterpret_cast<uintptr_t>(p) % align : 0);
    bool inside = n == 0 || arena->contains(p);
    if (inside && s.size() == n) record(p, n); else record(p, 0, false);
    ev.i("id", live.back().id).j("o", obs());
    ep.emit(ev);
  }
  void localize(bool c, bool cstr) {
    size_t n = ep.rng.range(0, 40);
    char *src = new char[n + (cstr ? 1 : 0) + (n == 0)]; // exact size: over-reads are caught
    for (size_t i = 0; i < n; ++i) src[i] = static_cast<char>('a' + ep.rng.range(0, 25));
    if (cstr) src[n] = 0;
    ep.pending(c ? "localize_c" : "localize");
    size_t pad = 0;
    MemSpan<char> v;
    if (c) v = cstr ? arena->localize_c(src) : arena->localize_c(MemSpan<char const>(src, n));
    else v = cstr ? arena->localize(src) : arena->localize(MemSpan<char const>(src, n));
    long dead = 0;
    scan(dead);
    size_t total = n + (c ? 1 : 0);
    Ev ev("localize");
    ev.i("n", total).i("pad", pad).j("r", where(v.data(), total)).b("c", c).t("text", {src, n}).t("view", {v.data(), v.size()});
    ev.i("ptr", v.data() == src && n ? 1 : 0).i("term", c ? static_cast<unsigned char>(v.data()[n]) : 0);
    delete[] src;
    record(v.data(), total);
    ev.i("id", live.back().id).j("o", obs());
    ep.emit(ev);
  }
  void require(size_t n, size_t align) {
    ep.pending("require");
    size_t pad = rempad(align);
    arena->require(n, align);
    Ev ev("require");
    ev.i("n", n).i("pad", pad).i("pad2", rempad(align)).j("o", obs());
    ep.emit(ev);
  }
  void remnant(size_t n, size_t align, int how) {
    ep.pending("remnant");
    if (how == 1) { align = alignof(uint64_t); n = n / 8 * 8; }
    size_t pad = rempad(align);
    MemSpan<void> s;
    if (how == 1) { auto t = arena->remnant_span<uint64_t>(n / 8); s = MemSpan<void>(t.data(), t.count() * 8); }
    else if (align == 1 && ep.rng.chance(1, 2)) s = arena->remnant_span<void>(n);
    else s = arena->remnant(n, align);
    long dead = 0;
    scan(dead);
    Ev ev("remnant");
    ev.i("n", n).i("pad", pad).i("pad2", rempad(align)).j("r", where(static_cast<char *>(s.data()), s.size()));
    ev.i("amod", n ? reinterpret_cast<uintptr_t>(s.data()) % align : 0).j("o", obs());
    ep.emit(ev);
  }
  void giveback() {
    if (live.empty()) return;
    size_t k = ep.rng.chance(3, 4) ? live.size() - 1 : ep.rng.range(0, live.size() - 1);
    A &a = live[k];
    if (a.frozen || a.n == 0) return;
    size_t m = ep.rng.chance(2, 3) ? a.n : ep.rng.range(1, a.n);
    ep.pending("giveback");
    size_t before = arena->size();
    arena->discard(MemSpan<void const>(a.p + a.n - m, m));
    bool ok = arena->size() != before;
    if (ok) a.n -= m;
    Ev ev("giveback");
    ev.i("id", a.id).i("k", m).b("ok", ok).j("o", obs());
    ep.emit(ev);
  }
  void discard(size_t h) {
    ep.pending("discard");
    arena->discard(h);
    std::vector<A> keep;
    for (auto &a : live) if (a.frozen) keep.push_back(a);
    live = keep;
    Ev ev("discard");
    ev.i("hint", h).j("o", obs());
    ep.emit(ev);
  }
  void freeze(size_t h) {
    ep.pending("freeze");
    arena->freeze(h);
    std::vector<A> keep;
    for (auto &a : live) if (!a.frozen) { a.frozen = true; keep.push_back(a); }
    live = keep;
    Ev ev("freeze");
    ev.i("hint", h).j("o", obs());
    ep.emit(ev);
  }
  void thaw() {
    ep.pending("thaw");
    arena->thaw();
    std::vector<A> keep;
    for (auto &a : live) if (!a.frozen) keep.push_back(a);
    live = keep;
    Ev ev("thaw");
    ev.j("static", has_static ? "[" + std::to_string(STATIC_ID) + "]" : "[]").j("o", obs());
    ep.emit(ev);
  }
  void clear(size_t h) {
    ep.pending("clear");
    arena->clear(h);
    live.clear();
    Ev ev("clear");
    ev.i("hint", h).j("o", obs());
    ep.emit(ev);
  }
  void move(int how) {
    if (self) return;
    ep.pending("move");
    std::unique_ptr<MemArena> old = std::move(holder);
    if (how == 0) holder = std::make_unique<MemArena>(std::move(*old));
    else {
      holder = std::make_unique<MemArena>(64);
      if (how == 2) { holder->alloc(200); holder->freeze(); holder->alloc(100); }
      *holder = std::move(*old);
    }
    arena = holder.get();
    Ev ev("move");
    ev.v("from", std::vector<long>{static_cast<long>(old->size()), static_cast<long>(old->allocated_size()), static_cast<long>(old->reserved_size()),
                                   static_cast<long>(old->remaining())});
    auto s      = old->alloc(40, 8);
    bool usable = s.size() == 40 && old->contains(s.data()) && !arena->contains(s.data()) && old->size() == 40;
    long grown  = static_cast<long>(old->reserved_size());
    if (s.size() == 40) memset(s.data(), 0x5A, 40);
    old.reset(); // must not release anything that was moved.
    ev.i("grown", grown).b("usable", usable).j("o", obs());
    ep.emit(ev);
  }
  void contains() {
    Ev ev("contains");
    char local;
    ep.pending("contains");
    int c = ep.rng.range(0, 3);
    char const *p = &local;
    std::string b = "0";
    if (c == 0 && !live.empty()) {
      A &a = live[ep.rng.range(0, live.size() - 1)];
      p    = a.n ? a.p + ep.rng.range(0, a.n - 1) : &local;
    } else if (c == 1 && arena->remaining()) p = static_cast<char *>(arena->remnant().data());
    else if (c == 2 && has_static) p = sdata() - 1;
    // The block it is in, from the block list.
    auto look = [&](MemArena::Block const &k) { if (k.data() <= p && p < k.data() + bsize(k)) b = std::to_string(ids[k.data()]); };
    for (auto it = arena->begin(); it != arena->end(); ++it) look(*it);
    for (auto it = arena->frozen_begin(); it != arena->frozen_end(); ++it) look(*it);
    ev.j("b", b).b("r", arena->contains(p));
    ep.emit(ev);
  }
  void start(int kind) {
    ep.pending("construct");
    Ev ev("init");
    size_t hint = 0;
    if (kind == 1) {
      static const std::vector<size_t> sizes{64, 80, 256, 1000, 2048, 3000};
      static_size = ep.rng.pick(sizes);
      has_static  = true;
      holder      = std::make_unique<MemArena>(MemSpan<void>(sdata(), static_size));
      arena       = holder.get();
    } else if (kind == 2) {
      self  = true;
      arena = MemArena::construct_self_contained(ep.rng.range(0, 1) ? 512 : 3000);
    } else if (kind == 3) {
      holder = std::make_unique<MemArena>();
      arena  = holder.get();
      hint   = 0; // unspecified default, so nothing is promised beyond zero.
    } else {
      static const std::vector<size_t> hints{0, 1, 16, 100, 512, 1024, 4000, 5000, 20000};
      hint   = ep.rng.pick(hints);
      holder = std::make_unique<MemArena>(hint);
      arena  = holder.get();
    }
    long dead = 0;
    scan(dead);
    auto rem = arena->remnant();
    ev.i("hint", self ? 0 : hint).j("act", blocks(arena->begin(), arena->end())).j("rem", where(static_cast<char *>(rem.data()), rem.size()));
    ev.i("size", arena->size()).i("self", self ? sizeof(MemArena) : 0).j("static", has_static ? "[1000]" : "[]");
    ev.i("want", kind == 1 ? 16 : 0);
    ev.j("at", self ? where(reinterpret_cast<char *>(arena), sizeof(MemArena)) : "[0,0,0]");
    ep.emit(ev);
  }
  // A static block without room for the data of a block can not be used.
  void tiny() {
    ep.pending("tiny");
    alignas(64) char mem[128]; memset(mem, 0x5A, sizeof mem);
    size_t n = ep.rng.range(0, sizeof(MemArena::Block) - 1); bool threw = false, clean = true;
    try { MemArena a(MemSpan<void>(mem, n)); } catch (std::exception const &) { threw = true; }
    for (char c : mem) if (c != 0x5A) clean = false;
    Ev ev("tiny"); ev.b("threw", threw).b("clean", clean); ep.emit(ev);
  }
  void destroy() {
    ep.pending("destroy");
    std::vector<char const *> raw;
    for (auto &[d, id] : ids) if (id != STATIC_ID) raw.push_back(d - sizeof(MemArena::Block));
    if (self) std::destroy_at(arena); else holder.reset();
    long lk = leaked;
    for (auto p : raw) if (__sanitizer_get_ownership(p)) ++lk;
    bool g = true;
    for (int i = 0; i < 16; ++i) if (static_cast<unsigned char>(guard_static[i]) != 0xA5) g = false;
    if (has_static) for (size_t i = 16 + static_size; i < sizeof guard_static; ++i) if (static_cast<unsigned char>(guard_static[i]) != 0xA5) g = false;
    Ev ev("destroy");
    ev.i("leaked", lk).b("guard", g);
    ep.emit(ev);
  }
};

int main(int argc, char **argv) {
  return vt::main(argc, argv, [&](Ep &ep) {
    auto dp   = std::make_unique<Driver>(ep);
    Driver &d = *dp;
    bool life = ep.only == "life";
    int kind  = ep.id % 5 == 0 ? 1 : ep.id % 7 == 3 ? 3 : ep.id % 8 == 1 ? 2 : 0;
    d.start(kind);
    int steps       = ep.thorough ? 120 : 60;
    int style       = ep.rng.range(0, 3);
    size_t max_live = 40;
    for (int k = 0; k < steps; ++k) {
      auto size = [&]() -> size_t {
        size_t rem = d.arena->remaining();
        switch (ep.rng.range(0, style == 0 ? 4 : 9)) {
        case 0: return ep.rng.range(0, 3);
        case 1: case 2: return ep.rng.range(1, 40);
        case 3: return ep.rng.range(1, 200);
        case 4: return rem;
        case 5: return rem + ep.rng.range(1, 3);
        case 6: return rem > 20 ? rem - ep.rng.range(0, 20) : rem;
        case 7: return ep.rng.range(200, 3000);
        case 8: return ep.rng.range(900, 1100) * ep.rng.range(1, 4) - ep.rng.range(0, 80);
        default: return ep.rng.chance(1, 4) ? ep.rng.range(3900, 8300) : ep.rng.range(1, 64);
        }
      };
      auto align = [&]() -> size_t { return style == 1 ? 1 : size_t(1) << ep.rng.range(0, ep.rng.chance(1, 3) ? 8 : 4); };
      int o      = ep.rng.range(0, 99);
      if (d.live.size() > max_live) o = ep.rng.range(90, 95);
      if (d.self && o >= 90) { if (d.live.size() > max_live) break; o = ep.rng.range(62, 89); } // would release the arena itself
      if (o < (life ? 40 : 62)) { int how = ep.rng.range(0, 9); size_t n = size(); d.alloc(n, how == 2 ? 8 : how == 3 ? 32 : align(), how == 1 ? 1 : (how == 2 || how == 3) && n > 0 ? how : 0); }
      else if (o < 66) d.localize(ep.rng.chance(1, 2), ep.rng.chance(1, 2));
      else if (o < 72) d.require(size(), align());
      else if (o < 76) d.remnant(size(), align(), ep.rng.chance(1, 3));
      else if (o < 85) d.giveback();
      else if (o < 90) { if (ep.rng.chance(1, 8)) d.tiny(); else d.contains(); }
      else if (o < 92) d.discard(ep.rng.chance(1, 2) ? 0 : ep.rng.range(1, 3000));
      else if (o < 94) {
        d.freeze(ep.rng.chance(1, 2) ? 0 : ep.rng.range(1, ep.rng.chance(1, 4) ? 40000 : 6000));
        if (ep.rng.chance(1, 6)) d.move(ep.rng.range(0, 2)); // with a hint pending
      }
      else if (o < 97) d.thaw();
      else if (o < 98) d.clear(ep.rng.chance(1, 2) ? 0 : ep.rng.range(1, 6000));
      else d.move(ep.rng.range(0, 2));
      if (!d.self && d.live.size() > 60) d.clear(0);
    }
    d.destroy();
  }, 240, 3000);
}
