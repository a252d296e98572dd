// containers
#include "zoo.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace sim;
namespace gen = rc::gen;
using rc::Gen;
namespace zoo {
namespace {

template <typename C>
Gen<Val> fin(Gen<C> g, const Spec &sp) {
  int tag = 100 + sp.kind;
  Cb cb(sp);
  return gen::map(std::move(g), [=](C &&c) {
    Val v(tag, 0, std::vector<Val>(c.begin(), c.end()));
    cb.enter("container-map", v);
    return v;
  });
}
template <typename C>
Gen<Val> finMap(Gen<C> g, const Spec &sp) {
  int tag = 100 + sp.kind;
  Cb cb(sp);
  return gen::map(std::move(g), [=](C &&c) {
    Val v(tag, 0);
    for (auto &p : c) v.k.push_back(Val(2, 0, {p.first, p.second}));
    cb.enter("container-map", v);
    return v;
  });
}
template <typename C>
Gen<Val> seqOf(const Spec &sp, Gen<Val> k) {
  return fin<C>(sp.a >= 0 ? gen::container<C>(static_cast<std::size_t>(sp.a), k) : gen::container<C>(k), sp);
}
template <typename C>
Gen<Val> mapOfC(const Spec &sp, Gen<Val> k, Gen<Val> v) {
  return finMap<C>(sp.a >= 0 ? gen::container<C>(static_cast<std::size_t>(sp.a), k, v) : gen::container<C>(k, v), sp);
}
struct KeyFn {
  Cb cb;
  Spec me;
  long long operator()(const Val &v) const { cb.enter("uniqueBy", v); return keyOf(me, v); }
};
template <typename C>
Gen<Val> uniq(const Spec &sp, Gen<Val> k) {
  if (sp.b == 1) {
    Spec me = sp;
    me.kids.clear();
    KeyFn f{Cb(sp), me};
    Gen<Val> r = fin<C>(sp.a >= 0 ? gen::uniqueBy<C>(static_cast<std::size_t>(sp.a), k, f) : gen::uniqueBy<C>(k, f), sp);
    f.cb.c.touch(); // the function object given as an lvalue is still the caller's
    return r;
  }
  return fin<C>(sp.a >= 0 ? gen::unique<C>(static_cast<std::size_t>(sp.a), k) : gen::unique<C>(k), sp);
}

} // namespace

Gen<Val> buildC(const Spec &sp) {
  auto k = build(sp.kids[0]);
  switch (sp.kind) {
  case KSeqContainer:
    switch (sp.t) {
    case 0: return seqOf<std::vector<Val>>(sp, k);
    case 1: return seqOf<std::list<Val>>(sp, k);
    case 2: return seqOf<std::deque<Val>>(sp, k);
    default: return seqOf<std::forward_list<Val>>(sp, k);
    }
  case KSetContainer:
    switch (sp.t) {
    case 0: return seqOf<std::set<Val>>(sp, k);
    case 1: return seqOf<std::unordered_set<Val, ValHash>>(sp, k);
    case 2: return seqOf<std::multiset<Val>>(sp, k);
    default: return seqOf<std::unordered_multiset<Val, ValHash>>(sp, k);
    }
  case KUnique: return sp.t == 0 ? uniq<std::vector<Val>>(sp, k) : uniq<std::list<Val>>(sp, k);
  case KArray:
    if (sp.t == 1) return fin<std::array<Val, 3>>(gen::container<std::array<Val, 3>>(std::size_t(3), k), sp);
    return fin<std::array<Val, 3>>(gen::container<std::array<Val, 3>>(k), sp);
  case KMapContainer: {
    auto v = build(sp.kids[1]);
    switch (sp.t) {
    case 0: return mapOfC<std::map<Val, Val>>(sp, k, v);
    case 1: return mapOfC<std::unordered_map<Val, Val, ValHash>>(sp, k, v);
    case 2: return mapOfC<std::multimap<Val, Val>>(sp, k, v);
    default: return mapOfC<std::unordered_multimap<Val, Val, ValHash>>(sp, k, v);
    }
  }
  }
  return gen::just(Val());
}
} // namespace zoo
