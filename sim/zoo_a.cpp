// leaves
#include "zoo.h"
#include <deque>
#include <list>
#include <set>
using namespace sim;
namespace gen = rc::gen;
namespace zoo {
namespace {

template <typename T>
rc::Gen<Val> intGen(const Spec &sp) {
  int tag = 100 + sp.kind;
  auto wrap = [tag](T x) { return Val(tag, static_cast<long long>(x)); };
  switch (sp.kind) {
  case KInt: return gen::map(gen::arbitrary<T>(), wrap);
  case KInRange: return gen::map(gen::inRange<T>(static_cast<T>(sp.a), static_cast<T>(sp.b)), wrap);
  default:
    switch (sp.a) {
    case 0: return gen::map(gen::positive<T>(), wrap);
    case 1: return gen::map(gen::negative<T>(), wrap);
    case 2: return gen::map(gen::nonNegative<T>(), wrap);
    default: return gen::map(gen::nonZero<T>(), wrap);
    }
  }
}

template <typename T>
Val realVal(int tag, T x) {
  char buf[64];
  std::snprintf(buf, sizeof buf, "%La", static_cast<long double>(x));
  Val v(tag, 0);
  v.s = buf;
  return v;
}

std::vector<Val> elems(int tag, long long n) {
  std::vector<Val> v;
  for (long long i = 0; i < n; i++) v.push_back(Val(tag, i));
  return v;
}

} // namespace

rc::Gen<Val> buildA(const Spec &sp) {
  int tag = 100 + sp.kind;
  switch (sp.kind) {
  case KJust: return gen::just(Val(tag, sp.a));
  case KInt: case KInRange: case KSign:
    switch (sp.t) {
    case 0: return intGen<signed char>(sp);
    case 1: return intGen<unsigned char>(sp);
    case 2: return intGen<short>(sp);
    case 3: return intGen<unsigned short>(sp);
    case 4: return intGen<int>(sp);
    case 5: return intGen<unsigned int>(sp);
    case 6: return intGen<std::int64_t>(sp);
    default: return intGen<std::uint64_t>(sp);
    }
  case KBool: return gen::map(gen::arbitrary<bool>(), [tag](bool b) { return Val(tag, b); });
  case KReal:
    if (sp.t == 0) return gen::map(gen::arbitrary<double>(), [tag](double x) { return realVal(tag, x); });
    if (sp.t == 1) return gen::map(gen::arbitrary<float>(), [tag](float x) { return realVal(tag, x); });
    if (sp.t == 2) return gen::map(gen::arbitrary<long double>(), [tag](long double x) { return realVal(tag, x); });
    return gen::map(gen::cast<double>(gen::arbitrary<float>()), [tag](double x) { return realVal(tag, x); });
  case KChar:
    if (sp.t == 0) return gen::map(gen::character<char>(), [tag](char c) { return Val(tag, c); });
    return gen::map(gen::character<wchar_t>(), [tag](wchar_t c) { return Val(tag, c); });
  case KStr:
    if (sp.t == 0) return gen::map(gen::string<std::string>(), [tag](std::string &&x) { Val v(tag, 0); v.s = std::move(x); return v; });
    return gen::map(gen::arbitrary<std::wstring>(), [tag](std::wstring &&x) {
      Val v(tag, 0);
      for (wchar_t c : x) for (int i = 0; i < 4; i++) v.s += static_cast<char>((static_cast<std::uint32_t>(c) >> (8 * i)) & 0xff);
      return v; });
  case KElement: return gen::element(Val(tag, 0), Val(tag, 1), Val(tag, 2));
  case KElementOf: {
    auto e = elems(tag, sp.a);
    switch (sp.t) {
    case 0: return gen::elementOf(e);
    case 1: return gen::elementOf(std::deque<Val>(e.begin(), e.end()));
    case 2: return gen::elementOf(std::list<Val>(e.begin(), e.end()));
    default: return gen::elementOf(std::set<Val>(e.begin(), e.end()));
    }
  }
  case KSizedElement: {
    auto e = elems(tag, sp.a);
    if (sp.t == 0 && sp.a == 2) return gen::sizedElement(e[0], e[1]);
    if (sp.t == 1) return gen::sizedElementOf(std::list<Val>(e.begin(), e.end()));
    return gen::sizedElementOf(e);
  }
  case KWeightedElement: {
    std::size_t w0 = sp.b == 2 ? 0 : 3, w1 = sp.b == 0 ? 1 : 0, w2 = 2;
    return gen::weightedElement<Val>({{w0, Val(tag, 0)}, {w1, Val(tag, 1)}, {w2, Val(tag, 2)}});
  }
  case KDuration:
    if (sp.t == 1) {
      using Point = std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<int, std::ratio<60>>>;
      return gen::map(gen::arbitrary<Point>(), [tag](Point p) { return Val(tag, p.time_since_epoch().count()); });
    }
    return gen::map(gen::arbitrary<std::chrono::duration<int, std::ratio<60>>>(), [tag](std::chrono::duration<int, std::ratio<60>> d) { return Val(tag, d.count()); });
  case KWithSize: { Cb cb(sp); return gen::withSize([cb, tag](int size) { cb.enter("withSize", Val(0, size)); return gen::just(Val(tag, size)); }); }
  }
  return gen::just(Val());
}
} // namespace zoo
