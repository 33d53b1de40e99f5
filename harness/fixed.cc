// Conformance driver for swoc::FixedArena.
#include "vt.h"
#include "swoc/MemArena.h"
#include <map>
using namespace vt;

static long g_ctor, g_dtor;
template <size_t SIZE, size_t ALIGN> struct Obj {
  alignas(ALIGN) unsigned char fill[SIZE];
  Obj(int v, int w) { ++g_ctor; set(v + w); }
  Obj(Obj const &) = delete;
  // Construction that makes other objects of the arena, before and after this is set.
  template <typename FA> Obj(int v, int w, FA *fa, std::vector<Obj *> *made, int before, int after) {
    while (before-- > 0) made->push_back(fa->make(int(made->size()), 1));
    ++g_ctor; set(v + w);
    while (after-- > 0) made->push_back(fa->make(int(made->size()), 1));
  }
  // Construction that fails after writing to the object.
  Obj(int v, void **where, size_t n) {
    *where = this;
    for (size_t i = 0; i < n; ++i) static_cast<unsigned char volatile *>(fill)[i] = static_cast<unsigned char>(v);
    throw v;
  }
  // What was in the object is gone.
  ~Obj() { ++g_dtor; for (size_t i = 0; i < SIZE; ++i) static_cast<unsigned char volatile *>(fill)[i] = g_dtor % 3 ? 0 : 0xEE; }
  void set(int v) { for (size_t i = 0; i < SIZE; ++i) fill[i] = static_cast<unsigned char>(v + i); }
  int get() const { for (size_t i = 0; i < SIZE; ++i) if (fill[i] != static_cast<unsigned char>(fill[0] + i)) return -1; return fill[0]; }
};

template <typename T> void drive(Ep &ep) {
  g_ctor = g_dtor = 0;
  auto arena = std::make_unique<swoc::MemArena>(static_cast<size_t>(ep.rng.range(0, 2000)));
  swoc::FixedArena<T> fa(*arena);
  std::map<T *, long> ids;   // every address seen
  std::map<T *, bool> live;
  long next = 1, outside = 0, misaligned = 0;
  auto obs = [&](Ev &ev) {
    std::vector<std::string> m;
    for (auto &[p, b] : live) m.push_back("[" + std::to_string(ids[p]) + "," + std::to_string(p->get()) + "]");
    Rec r;
    r.j("live", jlist(m)).i("ctor", g_ctor).i("dtor", g_dtor).i("size", arena->allocated_size()).i("unit", sizeof(T));
    r.i("misaligned", misaligned).i("outside", outside);
    ev.j("o", r.str());
    ep.emit(ev);
  };
  auto some = [&]() -> T * { auto it = live.begin(); std::advance(it, ep.rng.range(0, live.size() - 1)); return it->first; };
  int bias = ep.rng.range(30, 70);
  for (int k = 0; k < (ep.thorough ? 200 : 80); ++k) {
    int o = ep.rng.range(0, 99);
    if (o < 4) { ep.pending("null"); fa.destroy(nullptr); Ev ev("null"); obs(ev); }
    else if (o < 6) { ep.pending("forget"); fa.clear(); Ev ev("forget"); obs(ev); }
    else if (o < 14 && !live.empty()) { T *p = some(); int v = ep.rng.range(0, 255); p->set(v); Ev ev("assign"); ev.i("p", ids[p]).i("v", v); obs(ev); }
    else if (o < 17 && live.size() < 25) { // objects made while an object is made.
      int v = ep.rng.range(0, 127), w = ep.rng.range(0, 127), before = ep.rng.range(0, 2), after = ep.rng.range(0, 2);
      std::vector<T *> made;
      ep.pending("nest");
      T *p = fa.make(v, w, &fa, &made, before, after);
      made.push_back(p);
      std::vector<long> q;
      for (T *t : made) {
        if (!ids.count(t)) ids[t] = next++;
        if (reinterpret_cast<uintptr_t>(t) % alignof(T)) ++misaligned;
        live[t] = true;
        q.push_back(ids[t]);
      }
      Ev ev("nest");
      ev.v("p", q).i("v", v + w);
      obs(ev);
    }
    else if (o < 19) { // a constructor that throws.
      void *where = nullptr;
      bool thrown = false;
      int v = ep.rng.chance(1, 2) ? 0 : ep.rng.range(1, 255);
      ep.pending("fail");
      try { fa.make(v, &where, size_t(ep.rng.range(0, sizeof(T)))); } catch (int x) { thrown = x == v; }
      T *p = static_cast<T *>(where);
      if (!ids.count(p)) ids[p] = next++;
      if (reinterpret_cast<uintptr_t>(p) % alignof(T)) ++misaligned;
      if (!arena->contains(p) || !arena->contains(reinterpret_cast<char *>(p) + sizeof(T) - 1)) ++outside;
      Ev ev(thrown ? "fail" : "unreported");
      ev.i("p", ids[p]);
      obs(ev);
    }
    else if (ep.rng.range(0, 99) < bias || live.empty()) {
      int v = ep.rng.range(0, 127), w = ep.rng.range(0, 127);
      ep.pending("make");
      T *p = fa.make(v, w);
      if (!ids.count(p)) ids[p] = next++;
      if (reinterpret_cast<uintptr_t>(p) % alignof(T)) ++misaligned;
      if (!arena->contains(p) || !arena->contains(reinterpret_cast<char *>(p) + sizeof(T) - 1)) ++outside;
      live[p] = true;
      Ev ev("make");
      ev.i("p", ids[p]).i("v", v + w);
      obs(ev);
      if (live.size() > 30) bias = 35;
    } else {
      T *p = some();
      ep.pending("destroy");
      fa.destroy(p);
      live.erase(p);
      Ev ev("destroy");
      ev.i("p", ids[p]);
      obs(ev);
    }
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [&](Ep &ep) {
    switch (ep.id % 4) {
    case 0: drive<Obj<8, 8>>(ep); break;
    case 1: drive<Obj<24, 8>>(ep); break;
    case 2: drive<Obj<64, 32>>(ep); break;
    default: drive<Obj<300, 4>>(ep); break;
    }
  }, 80, 1200);
}
