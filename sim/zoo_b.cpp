// transformations and combinations
#include "zoo.h"
#include <rapidcheck/boost.h>
using namespace sim;
namespace gen = rc::gen;
using rc::Gen;
namespace zoo {
namespace {

struct Rec { // for construct / build / makeUnique / makeShared
  Val a, b, c;
  Rec() = default;
  explicit Rec(Val x) : a(std::move(x)) {}
  Rec(Val x, Val y) : a(std::move(x)), b(std::move(y)) {}
  Rec(Val x, Val y, Val z) : a(std::move(x)), b(std::move(y)), c(std::move(z)) {}
  void setB(Val x) { b = std::move(x); }
  void setBC(Val x, Val y) { b = std::move(x); c = std::move(y); }
};

struct Excluded { // compared with by gen::distinctFrom
  Cb cb;
  std::uint32_t m;
};
bool operator==(const Val &v, const Excluded &e) { e.cb.enter("distinctFrom", v); return v.hash() % 8 == e.m; }

Gen<Val> nested(const Spec &leafSpec, Cb cb, long long depth) {
  int tag = 100 + KNested;
  if (depth <= 0) return gen::map(build(leafSpec), [tag](Val &&v) { return Val(tag, 0, {std::move(v)}); });
  // a recursive generator: the recursion goes through gen::lazy
  return gen::oneOf(
      gen::map(build(leafSpec), [tag](Val &&v) { return Val(tag, 0, {std::move(v)}); }),
      gen::map(gen::container<std::vector<Val>>(2, gen::lazy([=] { cb.enter("nested", Val(0, depth)); return nested(leafSpec, cb, depth - 1); })),
               [=](std::vector<Val> &&v) { return Val(tag, depth, std::move(v)); }));
}

} // namespace

Gen<Val> buildB(const Spec &sp) {
  int tag = 100 + sp.kind;
  Cb cb(sp);
  Spec me = sp;
  me.kids.clear();
  std::vector<Gen<Val>> k;
  for (auto &x : sp.kids) k.push_back(build(x));
  switch (sp.kind) {
  case KMap: return gen::map(k[0], [=](Val &&v) { cb.enter("map", v); auto m = mapOf(me, v); return Val(tag, m, {std::move(v)}); });
  case KCast: return gen::cast<Val>(gen::map(k[0], [=](const Val &v) { cb.enter("cast", v); return Val(tag, mapOf(me, v), {v}); }));
  case KMapcat:
    return gen::mapcat(k[0], [=](Val &&v) {
      cb.enter("mapcat", v);
      auto hi = 1 + static_cast<int>(v.hash() % 20);
      auto outer = v;
      return gen::map(gen::inRange<int>(0, hi), [=](int x) { cb.c.touch(); return Val(tag, 0, {outer, Val(1, x)}); });
    });
  case KJoin: {
    auto inner = k[0];
    return gen::join(gen::map(gen::inRange<int>(0, 5), [=](int) { cb.c.touch(); return inner; }));
  }
  case KResize: return gen::resize(static_cast<int>(sp.a), k[0]);
  case KScale: return gen::scale(static_cast<double>(sp.a) / 8.0, k[0]);
  case KNoShrink: return gen::noShrink(k[0]);
  case KShrink: {
    // further shrinks that stay inside the inner generator's range
    auto lo = sp.kids[0].a;
    return gen::shrink(k[0], [=](const Val &v) {
      cb.enter("shrink", v);
      if (v.n <= lo + 1) return rc::Seq<Val>();
      Val h = v;
      h.n = lo + (v.n - lo) / 2;
      return rc::seq::just(h);
    });
  }
  case KLazy: { auto inner = sp.kids[0]; return gen::lazy([=] { cb.enter("lazy", Val()); return build(inner); }); }
  case KSuchThat: return gen::suchThat(k[0], [=](const Val &v) { cb.enter("suchThat", v); return predOf(me, v); });
  case KNonEmpty: return gen::nonEmpty(k[0]);
  case KDistinct: return gen::distinctFrom(k[0], Excluded{cb, sp.seed % 8});
  case KMaybe:
    if (sp.t == 1)
      return gen::map(gen::boost::optional(k[0]), [=](boost::optional<Val> &&m) { cb.enter("boost-optional", m ? *m : Val()); return m ? Val(tag, 1, {std::move(*m)}) : Val(tag, 0); });
    return gen::map(gen::maybe(k[0]), [=](rc::Maybe<Val> &&m) { cb.enter("maybe", m ? *m : Val()); return m ? Val(tag, 1, {std::move(*m)}) : Val(tag, 0); });
  case KMakeUnique: return gen::map(gen::makeUnique<Rec>(k[0]), [=](std::unique_ptr<Rec> &&p) { cb.enter("makeUnique", p->a); return Val(tag, 0, {p->a}); });
  case KMakeShared: return gen::map(gen::makeShared<Rec>(k[0]), [=](const std::shared_ptr<Rec> &p) { cb.enter("makeShared", p->a); return Val(tag, 0, {p->a}); });
  case KNested: return nested(sp.kids[0], cb, sp.a);
  case KApply:
    if (k.size() == 2) return gen::apply([=](const Val &a, const Val &b) { cb.enter("apply", a); return Val(tag, mapOf(me, a) + mapOf(me, b), {a, b}); }, k[0], k[1]);
    return gen::apply([=](Val a, Val b, Val c) { cb.enter("apply", a); return Val(tag, mapOf(me, a) + mapOf(me, b) + mapOf(me, c), {a, b, c}); }, k[0], k[1], k[2]);
  case KExec: {
    // Picks depend on earlier picks.
    auto specs = sp.kids;
    long long maxN = sp.a;
    return gen::exec([=] {
      cb.enter("exec", Val());
      std::vector<Val> picks;
      int n = *gen::inRange<int>(0, static_cast<int>(maxN) + 1).as("n");
      picks.push_back(Val(1, n));
      for (int i = 0; i < n; i++) { picks.push_back(*k[0]); cb.enter("exec-body", picks.back()); }
      for (std::size_t j = 1; j < k.size(); j++) { picks.push_back(*k[j]); cb.enter("exec-body", picks.back()); }
      return Val(tag, 0, picks);
    });
  }
  case KConstruct:
    if (k.size() == 2) return gen::map(gen::construct<Rec>(k[0], k[1]), [=](Rec &&r) { cb.enter("construct", r.a); return Val(tag, 0, {r.a, r.b}); });
    return gen::map(gen::construct<Rec>(k[0], k[1], k[2]), [=](Rec &&r) { cb.enter("construct", r.a); return Val(tag, 0, {r.a, r.b, r.c}); });
  case KBuild:
    if (sp.seed % 2)
      return gen::map(gen::build<Rec>(gen::set(&Rec::a, k[0]), gen::set(&Rec::setB, k[1]), gen::set(&Rec::c, k[2])), [=](Rec &&r) { cb.enter("build", r.a); return Val(tag, 0, {r.a, r.b, r.c}); });
    return gen::map(gen::build(gen::construct<Rec>(k[0]), gen::set(&Rec::setBC, gen::tuple(k[1], k[2]))), [=](Rec &&r) { cb.enter("build", r.a); return Val(tag, 0, {r.a, r.b, r.c}); });
  case KOneOf: return k.size() == 2 ? gen::oneOf(k[0], k[1]) : gen::oneOf(k[0], k[1], k[2]);
  case KWeightedOneOf: {
    std::size_t w0 = sp.b == 1 ? 0 : 2;
    return k.size() == 2 ? gen::weightedOneOf<Val>({{w0, k[0]}, {3, k[1]}}) : gen::weightedOneOf<Val>({{w0, k[0]}, {3, k[1]}, {1, k[2]}});
  }
  case KSizedOneOf: return k.size() == 2 ? gen::sizedOneOf(k[0], k[1]) : gen::sizedOneOf(k[0], k[1], k[2]);
  case KPair: return gen::map(gen::pair(k[0], k[1]), [=](std::pair<Val, Val> &&p) { cb.enter("pair", p.first); return Val(tag, 0, {p.first, p.second}); });
  case KTuple:
    if (k.size() == 1) return gen::map(gen::tuple(k[0]), [=](std::tuple<Val> &&t) { cb.enter("tuple", std::get<0>(t)); return Val(tag, 0, {std::get<0>(t)}); });
    if (k.size() == 2) return gen::map(gen::tuple(k[0], k[1]), [=](std::tuple<Val, Val> &&t) { cb.enter("tuple", std::get<0>(t)); return Val(tag, 0, {std::get<0>(t), std::get<1>(t)}); });
    return gen::map(gen::tuple(k[0], k[1], k[2]), [=](std::tuple<Val, Val, Val> &&t) { cb.enter("tuple", std::get<0>(t)); return Val(tag, 0, {std::get<0>(t), std::get<1>(t), std::get<2>(t)}); });
  }
  return gen::just(Val());
}
} // namespace zoo
