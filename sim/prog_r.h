// The properties made from bodies, one translation unit per return type.
#include "prog.h"
using namespace sim;
using namespace zoo;
using namespace rc::detail;
namespace prog {
bool runBodyOf(const Body &b, std::vector<Val> args, std::string *text, CaseResult *res);

// ---- arguments ---------------------------------------------------------------

template <int K>
struct ArgVal { Val v; };
template <int K>
void showValue(const ArgVal<K> &a, std::ostream &os) { os << a.v.str(); }

// The argument generator of a slot, which notes when generating throws.
template <int K>
struct Noted {
  Noted(rc::Shrinkable<Val> x) : s(std::move(x)) {}
  rc::Shrinkable<Val> s;
  ArgVal<K> value() const {
    try {
      return ArgVal<K>{s.value()};
    } catch (...) {
      if (!frames.empty()) frames.back()->argsThrewAfter = frames.back()->execs.size();
      throw;
    }
  }
  rc::Seq<rc::Shrinkable<ArgVal<K>>> shrinks() const {
    return rc::seq::map(s.shrinks(), [](rc::Shrinkable<Val> &&x) { return rc::makeShrinkable<Noted<K>>(std::move(x)); });
  }
};
} // namespace prog
namespace rc {
template <int K>
struct Arbitrary<prog::ArgVal<K>> {
  static Gen<prog::ArgVal<K>> arbitrary() {
    return [](const Random &r, int size) { return rc::makeShrinkable<prog::Noted<K>>(zoo::build(prog::slotSpecs[K])(r, size)); };
  }
};
} // namespace rc
namespace prog {


namespace {
template <int R> struct Ret;
template <> struct Ret<0> { using T = void; };
template <> struct Ret<1> { using T = bool; };
template <> struct Ret<2> { using T = std::string; };
template <> struct Ret<3> { using T = CaseResult; };

template <int R>
typename Ret<R>::T finish(const Body &b, std::vector<Val> a);
template <> void finish<0>(const Body &b, std::vector<Val> a) { runBodyOf(b, std::move(a), nullptr, nullptr); }
template <> bool finish<1>(const Body &b, std::vector<Val> a) { return runBodyOf(b, std::move(a), nullptr, nullptr); }
template <> std::string finish<2>(const Body &b, std::vector<Val> a) { std::string t; runBodyOf(b, std::move(a), &t, nullptr); return t; }
template <> CaseResult finish<3>(const Body &b, std::vector<Val> a) { CaseResult t; runBodyOf(b, std::move(a), nullptr, &t); return t; }

template <int R, int K>
Property propOf(std::shared_ptr<Body> b) {
  using A = ArgVal<K>;
  using T = typename Ret<R>::T;
  switch (b->arity) {
  case 0: return toProperty([b]() -> T { return finish<R>(*b, {}); });
  case 1: return toProperty([b](const A &x) -> T { return finish<R>(*b, {x.v}); });
  case 2: return toProperty([b](A x, const A &y) -> T { return finish<R>(*b, {x.v, y.v}); });
  default: return toProperty([b](A &&x, const A &y, A z) -> T { return finish<R>(*b, {x.v, y.v, z.v}); });
  }
}
template <int R>
Property propR(std::shared_ptr<Body> b) {
  switch (b->slot) {
  case 0: return propOf<R, 0>(b);
  case 1: return propOf<R, 1>(b);
  case 2: return propOf<R, 2>(b);
  default: return propOf<R, 3>(b);
  }
}
} // namespace
} // namespace prog
