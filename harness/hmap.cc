// Conformance driver for swoc::IntrusiveHashMap.
#include "vt.h"
#include "swoc/IntrusiveHashMap.h"
#include <memory>
using namespace vt;

static int g_hash; // which hash function.
static long hash_fn(long k) {
  switch (g_hash) {
  case 0: return k;
  case 1: return 5;
  case 2: return k % 3;
  case 3: return k * 7;          // collides in 7 buckets
  case 4: return k * 1000003 % 2147483647;
  default: return k / 2;
  }
}
struct A { // key by value, size_t hash
  int id = 0;
  long key = 0;
  A *_next{nullptr}, *_prev{nullptr};
};
struct DA {
  static A *&next_ptr(A *a) { return a->_next; }
  static A *&prev_ptr(A *a) { return a->_prev; }
  static long key_of(A const *a) { return a->key; }
  static bool equal(long a, long b) { return a == b; }
  static size_t hash_of(long k) { return hash_fn(k); }
  using type = A;
  static long mk(long k) { return k; }
};
struct B { // key by reference, 32 bit hash
  int id = 0;
  std::string text;
  long key = 0;
  struct L { B *n{nullptr}, *p{nullptr}; } l;
};
struct DB {
  static B *&next_ptr(B *a) { return a->l.n; }
  static B *&prev_ptr(B *a) { return a->l.p; }
  static std::string const &key_of(B *a) { return a->text; }
  static bool equal(std::string const &a, std::string const &b) { return a == b; }
  static uint32_t hash_of(std::string const &k) { return hash_fn(atol(k.c_str())); }
  using type = B;
  static std::string mk(long k) { return std::to_string(k); }
};
inline void set_key(A &a, long k) { a.key = k; }
inline void set_key(B &a, long k) { a.key = k; a.text = std::to_string(k); }

template <typename D> void drive(Ep &ep) {
  using T   = typename D::type;
  using Map = swoc::IntrusiveHashMap<D>;
  auto &r   = ep.rng;
  g_hash    = r.range(0, 5);
  int N     = r.chance(1, 3) ? r.range(2, 8) : r.range(8, 40);
  int NK    = r.chance(1, 3) ? r.range(1, 4) : r.range(2, 30);
  long scale = r.chance(1, 4) ? 1000 : 1;
  std::vector<T> pool(N + 1);
  std::vector<long> keys, hashes;
  for (int i = 1; i <= N; ++i) {
    pool[i].id = i;
    set_key(pool[i], r.range(0, NK - 1) * scale);
    keys.push_back(pool[i].key);
    hashes.push_back(hash_fn(pool[i].key));
  }
  static size_t const sizes[] = {0, 1, 2, 3, 4, 7, 8, 14, 100};
  size_t n1 = sizes[r.range(0, 8)], n2 = sizes[r.range(0, 8)];
  std::unique_ptr<Map> maps[3];
  if (r.chance(1, 4)) { maps[1].reset(new Map()); n1 = 1; } else maps[1].reset(new Map(n1));
  maps[2].reset(new Map(n2));
  auto idn = [](T const *t) { return t ? t->id : 0; };
  std::vector<int> mem[3];
  auto obs = [&](Ev &ev) {
    std::vector<std::string> os;
    for (int i = 1; i <= 2; ++i) {
      Map &m       = *maps[i];
      Map const &c = m;
      std::vector<int> f, b;
      if (r.chance(1, 2)) for (auto &t : m) { f.push_back(t.id); if (f.size() > size_t(N)) break; }
      else for (auto spot = c.begin(); spot != c.end() && f.size() <= size_t(N); ++spot) f.push_back((*spot).id);
      auto back = m.end();
      while (back != m.begin() && b.size() <= size_t(N)) { --back; b.push_back(back->id); }
      mem[i] = f;
      os.push_back(Rec().v("f", f).v("b", b).i("n", c.count()).i("nb", c.bucket_count()).i("pol", c.get_expansion_policy()).i("lim", c.get_expansion_limit()).str());
    }
    ev.j("o", jlist(os));
    ep.emit(ev);
  };
  { Ev ev("start"); ev.i("i", 1).v("keys", keys).v("hash", hashes).j("n", jints(std::vector<size_t>{n1, n2})); obs(ev); }
  auto free_elt = [&]() -> T * {
    std::vector<int> fr;
    for (int i = 1; i <= N; ++i) { bool in = false; for (int k = 1; k <= 2; ++k) for (int q : mem[k]) in |= q == i; if (!in) fr.push_back(i); }
    return fr.empty() ? nullptr : &pool[r.pick(fr)];
  };
  auto member = [&](int i) -> T * { return mem[i].empty() ? nullptr : &pool[r.pick(mem[i])]; };
  auto some_key = [&]() -> long { return r.chance(1, 5) ? r.range(0, NK) * scale : pool[r.range(1, N)].key; };
  int grow = r.range(2, 8);
  for (int k = 0; k < (ep.thorough ? 140 : 70); ++k) {
    int i  = r.chance(3, 4) ? 1 : 2;
    Map &m = *maps[i];
    Map const &c = m;
    T *x   = free_elt();
    int op = r.range(0, 9) < grow && x ? 0 : r.range(1, 14);
    ep.pending("map op " + std::to_string(op));
    switch (op) {
    case 0: {
      if (c.bucket_count() > 5000 && c.get_expansion_policy() == Map::MAXIMUM) break; // poor hash, do not grow without bound.
      m.insert(x); Ev ev("insert"); ev.i("i", i).i("x", x->id); obs(ev); break; }
    case 1: {
      long key = some_key();
      Ev ev("find");
      ev.i("i", i).i("k", key);
      if (r.chance(1, 2)) { auto s = m.find(D::mk(key)); bool e = s == m.end(); ev.b("end", e).i("r", idn(s)); }
      else { auto s = c.find(D::mk(key)); bool e = s == c.end(); ev.b("end", e).i("r", idn(s)); }
      obs(ev);
      break;
    }
    case 2: {
      T *t = r.chance(1, 2) ? &pool[r.range(1, N)] : member(i);
      if (!t) break;
      Ev ev("findv");
      ev.i("i", i).i("x", t->id);
      if (r.chance(1, 2)) { auto s = m.find(t); bool e = s == m.end(); ev.b("end", e).i("r", idn(s)); }
      else { auto s = c.find(static_cast<T const *>(t)); bool e = s == c.end(); ev.b("end", e).i("r", idn(s)); }
      obs(ev);
      break;
    }
    case 3: {
      long key = some_key();
      std::vector<int> got;
      if (r.chance(1, 2)) for (auto &t : m.equal_range(D::mk(key))) { got.push_back(t.id); if (got.size() > size_t(N)) break; }
      else for (auto &t : c.equal_range(D::mk(key))) { got.push_back(t.id); if (got.size() > size_t(N)) break; }
      Ev ev("range");
      ev.i("i", i).i("k", key).v("r", got);
      obs(ev);
      break;
    }
    case 4: {
      T *t = member(i);
      if (!t) break;
      Ev ev("iterfor");
      ev.i("i", i).i("x", t->id);
      if (r.chance(1, 2)) { auto s = m.iterator_for(t); ev.i("r", idn(s)); ev.i("nx", idn(++s)); }
      else { auto s = c.iterator_for(static_cast<T const *>(t)); ev.i("r", idn(s)); ev.i("nx", idn(++s)); }
      obs(ev);
      break;
    }
    case 5:
    case 6:
    case 7: {
      T *t = member(i);
      if (!t) break;
      auto nx = m.erase(r.chance(1, 2) ? m.iterator_for(t) : m.find(t));
      Ev ev("erase");
      ev.i("i", i).i("x", t->id).i("r", idn(nx));
      obs(ev);
      break;
    }
    case 8: {
      T *t = r.chance(1, 2) ? &pool[r.range(1, N)] : member(i);
      if (!t) break;
      bool b = m.erase(t);
      Ev ev("erasev");
      ev.i("i", i).i("x", t->id).b("r", b);
      obs(ev);
      break;
    }
    case 9: {
      int n = mem[i].size(), a = r.range(0, n), b = r.chance(1, 2) ? std::min<int>(n, a + r.range(0, 4)) : r.range(a, n);
      auto at  = [&](int p) { return p < n ? &pool[mem[i][p]] : nullptr; };
      auto itr = [&](int p) { return p < n ? m.iterator_for(at(p)) : m.end(); };
      auto q   = r.chance(1, 2) ? m.erase(itr(a), itr(b)) : m.erase(typename Map::range{itr(a), itr(b)});
      Ev ev("cut");
      ev.i("i", i).i("a", idn(at(a))).i("b", idn(at(b))).i("r", idn(q));
      obs(ev);
      break;
    }
    case 10: {
      long key = some_key();
      m.erase(m.equal_range(D::mk(key)));
      Ev ev("cutkey");
      ev.i("i", i).i("k", key);
      obs(ev);
      break;
    }
    case 11: {
      std::vector<int> seen, rm;
      for (int q : mem[i]) if (r.chance(1, 4)) rm.push_back(q);
      auto gone = [&](int id) { for (int q : rm) if (q == id) return true; return false; };
      bool s;
      if (r.chance(1, 2)) s = &m.apply([&](T &t) { seen.push_back(t.id); if (gone(t.id)) m.erase(&t); }) == &m;
      else s = &m.apply([&](T *t) { seen.push_back(t->id); if (gone(t->id)) m.erase(t); }) == &m;
      Ev ev("apply");
      ev.i("i", i).v("seen", seen).v("rm", rm).b("self", s);
      obs(ev);
      break;
    }
    case 12: {
      if (r.chance(1, 2)) {
        if (r.chance(1, 2)) break;
        bool s = &m.clear() == &m;
        Ev ev("clear");
        ev.i("i", i).b("self", s);
        obs(ev);
      } else if (c.bucket_count() < 1000) {
        m.expand();
        Ev ev("expand");
        ev.i("i", i);
        obs(ev);
      }
      break;
    }
    case 13: {
      auto pol = std::vector<typename Map::ExpansionPolicy>{Map::MANUAL, Map::AVERAGE, Map::MAXIMUM, Map::MAXIMUM}[r.range(0, 3)];
      size_t lim = r.range(1, 5);
      bool s     = &m.set_expansion_policy(pol) == &m;
      s          = &m.set_expansion_limit(lim) == &m && s;
      Ev ev("policy");
      ev.i("i", i).i("pol", pol).i("lim", lim).b("self", s);
      obs(ev);
      break;
    }
    case 14: {
      if (i == 2 || mem[1].empty() || !r.chance(1, 2)) break;
      maps[2] = std::move(maps[1]);
      maps[1].reset(new Map(std::move(*maps[2])));
      Ev ev("move");
      ev.i("i", 1);
      obs(ev);
      break;
    }
    }
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [&](Ep &ep) {
    if (ep.id % 2) drive<DA>(ep);
    else drive<DB>(ep);
  }, 250, 4000);
}
