// Conformance driver for swoc::IntrusiveDList and its linkage helpers.
#include "vt.h"
#include "swoc/IntrusiveDList.h"
#include <deque>
#include <memory>
using namespace vt;

struct A { // links in a nested structure, hand written linkage.
  int id = 0;
  struct Links { A *n{nullptr}; A *p{nullptr}; } links;
  struct Linkage { static A *&next_ptr(A *a) { return a->links.n; } static A *&prev_ptr(A *a) { return a->links.p; } };
};
struct B {
  int id = 0;
  B *_next{nullptr}, *_prev{nullptr};
  using Linkage = swoc::IntrusiveLinkage<B>;
};
struct C { // other link members
  int id = 0;
  C *b{nullptr}, *f{nullptr};
  using Linkage = swoc::IntrusiveLinkage<C, &C::f, &C::b>;
};
struct D0 { D0 *_next{nullptr}, *_prev{nullptr}; virtual ~D0() {} long pad = 3; };
struct D : public D0 { // links of a base class
  int id       = 0;
  using Linkage = swoc::IntrusiveLinkageRebind<D, swoc::IntrusiveLinkage<D0>>;
};
struct E {
  int id = 0;
  swoc::IntrusiveLinks<E> links;
  using Linkage = swoc::IntrusiveLinkDescriptor<E, &E::links>;
};

template <typename T> void drive(Ep &ep) {
  using List = swoc::IntrusiveDList<typename T::Linkage>;
  using It   = typename List::iterator;
  using CIt  = typename List::const_iterator;
  auto &r    = ep.rng;
  int N      = r.chance(1, 4) ? r.range(1, 3) : r.range(4, 14);
  std::vector<T> pool(N + 1);
  for (int i = 1; i <= N; ++i) pool[i].id = i;
  auto lists = std::make_unique<List[]>(4);
  auto idn   = [](T const *t) { return t ? t->id : 0; };
  // Members of each list in order, from the observation of the last event.
  std::vector<std::vector<int>> mem(4);
  auto obs = [&](Ev &ev) {
    Rec o;
    std::vector<std::string> ls;
    for (int i = 1; i <= 3; ++i) {
      List &l       = lists[i];
      List const &c = l;
      std::vector<int> f, b;
      int guard = 0;
      switch (r.range(0, 2)) {
      case 0: for (auto &e : l) { f.push_back(e.id); if (++guard > N) break; } break;
      case 1: for (auto spot = c.begin(); spot != c.end() && ++guard <= N + 1; spot++) f.push_back(spot->id); break;
      default: for (T *t = l.head(); t && ++guard <= N + 1; t = T::Linkage::next_ptr(t)) f.push_back(t->id);
      }
      guard = 0;
      if (!l.empty()) {
        if (r.chance(1, 2)) { auto spot = l.end(); do { --spot; b.push_back((*spot).id); } while (spot != l.begin() && ++guard <= N); }
        else { auto spot = c.end(); do { spot--; b.push_back((*spot).id); } while (spot != c.begin() && ++guard <= N); }
      }
      mem[i] = f;
      ls.push_back(Rec().v("f", f).v("b", b).i("n", c.count()).b("e", c.empty()).i("h", r.chance(1, 2) ? idn(l.head()) : idn(c.head()))
                     .i("t", r.chance(1, 2) ? idn(l.tail()) : idn(c.tail())).str());
    }
    std::vector<int> nx, pv;
    auto link = [&](T *t) { return t == nullptr ? 0 : t >= &pool[1] && t <= &pool[N] ? t->id : -1; };
    for (int i = 1; i <= N; ++i) { nx.push_back(link(T::Linkage::next_ptr(&pool[i]))); pv.push_back(link(T::Linkage::prev_ptr(&pool[i]))); }
    o.j("l", jlist(ls)).v("nx", nx).v("pv", pv);
    ev.j("o", o.str());
    ep.emit(ev);
  };
  { Ev ev("start"); ev.i("i", 1); obs(ev); }
  auto free_elt = [&]() -> T * {
    std::vector<int> fr;
    for (int i = 1; i <= N; ++i) { bool in = false; for (int k = 1; k <= 3; ++k) for (int m : mem[k]) in |= m == i; if (!in) fr.push_back(i); }
    return fr.empty() ? nullptr : &pool[r.pick(fr)];
  };
  auto member = [&](int i) -> T * { return mem[i].empty() ? nullptr : &pool[r.pick(mem[i])]; };
  int grow = r.range(2, 8);
  for (int k = 0; k < (ep.thorough ? 120 : 60); ++k) {
    int i = r.range(1, 3), j = 1 + (i + r.range(0, 1)) % 3;
    List &l = lists[i];
    T *x    = free_elt();
    int op  = r.range(0, 9) < grow && x ? r.range(0, 3) : r.range(4, 20);
    ep.pending("list op " + std::to_string(op));
    switch (op) {
    case 0: { bool s = &l.prepend(x) == &l; Ev ev("prepend"); ev.i("i", i).i("x", x->id).b("self", s); obs(ev); break; }
    case 1: { bool s = &l.append(x) == &l; Ev ev("append"); ev.i("i", i).i("x", x->id).b("self", s); obs(ev); break; }
    case 2:
    case 3: {
      T *t = r.chance(1, 6) ? nullptr : member(i);
      bool it = t == nullptr || r.chance(1, 2), s;
      It spot = t ? l.iterator_for(t) : l.end();
      if (op == 2) s = it ? &l.insert_before(spot, x) == &l : &l.insert_before(t, x) == &l;
      else s = it ? &l.insert_after(spot, x) == &l : &l.insert_after(t, x) == &l;
      Ev ev(op == 2 ? "before" : "after");
      ev.i("i", i).i("x", x->id).i("t", idn(t)).b("self", s);
      obs(ev);
      break;
    }
    case 4: { T *q = l.take_head(); Ev ev("takehead"); ev.i("i", i).i("r", idn(q)); obs(ev); break; }
    case 5: { T *q = l.take_tail(); Ev ev("taketail"); ev.i("i", i).i("r", idn(q)); obs(ev); break; }
    case 6:
    case 7: {
      T *t = member(i);
      if (!t) break;
      T *q;
      if (r.chance(1, 2)) q = l.erase(t);
      else q = l.erase(l.iterator_for(t));
      Ev ev("erase");
      ev.i("i", i).i("x", t->id).i("r", idn(q));
      obs(ev);
      break;
    }
    case 8:
    case 9: {
      int n = mem[i].size(), a = r.range(0, n), b = r.range(a, n);
      auto at = [&](int p) { return p < n ? &pool[mem[i][p]] : nullptr; };
      auto itr = [&](int p) { return p < n ? l.iterator_for(at(p)) : l.end(); };
      It first = itr(a), last = itr(b);
      T *q     = l.erase(first, last);
      Ev ev("cut");
      ev.i("i", i).i("x", idn(at(a))).i("y", idn(at(b))).i("r", idn(q));
      obs(ev);
      break;
    }
    case 10:
    case 11: {
      static char const *const how[] = {"tp", "sp", "ts", "ss"};
      int h = r.range(0, 3), n = r.range(0, mem[i].size() + 1);
      auto get = [&]() -> List { switch (h) { case 0: return l.take_prefix(n); case 1: return l.split_prefix(n); case 2: return l.take_suffix(n); default: return l.split_suffix(n); } };
      if (r.chance(1, 2)) lists[j] = get();
      else { List tmp(get()); List tmp2(std::move(tmp)); lists[j] = std::move(tmp2); }
      Ev ev("take");
      ev.i("i", i).i("j", j).s("how", how[h]).i("n", n);
      obs(ev);
      break;
    }
    case 12:
    case 13: {
      List &src = lists[j];
      T *t      = member(i);
      int h     = t ? r.range(0, 3) : r.range(0, 1);
      static char const *const how[] = {"append", "prepend", "before", "after"};
      bool s, it = r.chance(1, 2);
      switch (h) {
      case 0: s = &l.append(src) == &l; break;
      case 1: s = &l.prepend(src) == &l; break;
      case 2: s = it ? &l.insert_before(l.iterator_for(t), src) == &l : &l.insert_before(t, src) == &l; break;
      default: s = it ? &l.insert_after(l.iterator_for(t), src) == &l : &l.insert_after(t, src) == &l; break;
      }
      Ev ev("splice");
      ev.i("i", i).i("j", j).s("how", how[h]).i("t", h > 1 ? idn(t) : 0).b("self", s);
      obs(ev);
      break;
    }
    case 14: {
      if (r.chance(1, 4)) { List &same = l; l = std::move(same); Ev ev("selfmove"); ev.i("i", i); obs(ev); break; }
      if (r.chance(1, 2)) l = std::move(lists[j]);
      else { List tmp(std::move(lists[j])); l = std::move(tmp); }
      Ev ev("move");
      ev.i("i", i).i("j", j);
      obs(ev);
      break;
    }
    case 15: { if (r.chance(2, 3)) break; bool s = &l.clear() == &l; Ev ev("clear"); ev.i("i", i).b("self", s); obs(ev); break; }
    case 16: { int n = r.range(0, mem[i].size() + 1); T *q = l.nth(n); Ev ev("nth"); ev.i("i", i).i("n", n).i("r", idn(q)); obs(ev); break; }
    case 17: { T *q = &pool[r.range(1, N)]; bool c = l.contains(q); Ev ev("contains"); ev.i("i", i).i("x", q->id).b("r", c); obs(ev); break; }
    case 18:
    case 19: {
      T *t = r.chance(1, 4) ? nullptr : member(i), *y = r.chance(1, 4) ? nullptr : member(i);
      Ev ev("iter");
      ev.i("i", i).i("x", idn(t)).i("y", idn(y));
      auto probe = [&](auto const &make) {
        auto at = make(t), other = make(y);
        ev.b("hasnext", at.has_next()).b("hassucc", at.has_successor()).b("hasprev", at.has_prev()).b("haspred", at.has_predecessor());
        ev.i("ptr", idn(at)).b("eq", at == other && !(at != other));
        if (t) { auto z = at; ev.i("pre", idn(++z)); z = at; auto was = z++; ev.i("post", idn(was)).i("postto", idn(z)); }
        if (at.has_prev()) { auto z = at; ev.i("dec", idn(--z)); z = at; auto was = z--; ev.i("pdec", idn(was)).i("pdecto", idn(z)); }
      };
      List const &c = l;
      if (r.chance(1, 2)) probe([&](T *p) { return p ? l.iterator_for(p) : l.end(); });
      else probe([&](T *p) { return p ? c.iterator_for(static_cast<T const *>(p)) : c.end(); });
      obs(ev);
      break;
    }
    case 20: {
      std::vector<int> seen, rm;
      for (int m : mem[i]) if (r.chance(1, 3)) rm.push_back(m);
      auto gone = [&](int id) { for (int q : rm) if (q == id) return true; return false; };
      bool s;
      if (r.chance(1, 2)) s = &l.apply([&](T &t) { seen.push_back(t.id); if (gone(t.id)) l.erase(&t); }) == &l;
      else s = &l.apply([&](T *t) { seen.push_back(t->id); if (gone(t->id)) l.erase(t); }) == &l;
      Ev ev("apply");
      ev.i("i", i).v("seen", seen).v("rm", rm).b("self", s);
      obs(ev);
      break;
    }
    }
  }
}

int main(int argc, char **argv) {
  return vt::main(argc, argv, [&](Ep &ep) {
    switch (ep.id % 5) {
    case 0: drive<A>(ep); break;
    case 1: drive<B>(ep); break;
    case 2: drive<C>(ep); break;
    case 3: drive<D>(ep); break;
    default: drive<E>(ep); break;
    }
  }, 250, 4000);
}
