// C05: what a report shows of the values a failing case received.
#include "prog.h"
#include "pretty.h"
#include <iostream>
using namespace sim;
using namespace prog;
using namespace rc::detail;
namespace gen = rc::gen;

namespace c05 {
std::string exStr(const Example &e);
void checkPrinted(Sim &s, const FailureResult &f);
}
using namespace c05;

namespace {

struct Quiet : TestListener {
  Sim &s;
  explicit Quiet(Sim &x) : s(x) {}
  void onTestCaseFinished(const CaseDescription &) override { s.step(); }
  void onShrinkTried(const CaseDescription &, bool) override { s.step(); }
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};

// -- values of every kind are shown as what the body received --------------------

struct Streamed { int x; };
std::ostream &operator<<(std::ostream &os, const Streamed &v) { return os << "streamed" << v.x; }
struct Both { int x; };
std::ostream &operator<<(std::ostream &os, const Both &) { return os << "wrong"; }
void showValue(const Both &v, std::ostream &os) { os << "shown" << v.x; }
struct Neither { int x; };
} // namespace

namespace pretty {
template <> struct P<Both> { static std::string of(const Both &v) { return "shown" + std::to_string(v.x); } };
template <> struct P<Neither> { static std::string of(const Neither &) { return "<" "?" "?" "?" ">"; } };
} // namespace pretty

namespace {

using Row = std::vector<std::pair<std::string, std::string>>;

rc::Gen<std::string> anyBytes() {
  return gen::container<std::string>(gen::oneOf(gen::arbitrary<char>(), gen::inRange<char>(0, 40), gen::element('\\', '"', 'n', '0', 'x', 'A', '7', ' ', '\n')));
}

// Takes one value and writes down how it is to be shown.
template <typename T> void take(Row &row, const rc::Gen<T> &g, const char *name) {
  auto v = *(name ? g.as(name) : g);
  row.emplace_back(name ? std::string(name) : typeToString<T>(), pretty::of(v));
}

void takeOne(Row &row, std::size_t kind, const char *name) {
  switch (kind) {
  case 0: return take(row, gen::arbitrary<int>(), name);
  case 1: return take(row, anyBytes(), name);
  case 2: return take(row, gen::arbitrary<std::vector<bool>>(), name);
  case 3: return take(row, gen::container<std::vector<std::string>>(anyBytes()), name);
  case 4: return take(row, gen::arbitrary<std::map<int, std::vector<char>>>(), name);
  case 5: return take(row, gen::arbitrary<std::unordered_map<unsigned char, std::set<short>>>(), name);
  case 6: return take(row, gen::tuple(anyBytes(), gen::arbitrary<double>(), gen::arbitrary<std::uint64_t>()), name);
  case 7: return take(row, gen::pair(gen::maybe(anyBytes()), gen::arbitrary<std::forward_list<std::pair<bool, float>>>()), name);
  case 8: return take(row, gen::arbitrary<std::list<std::deque<std::int64_t>>>(), name);
  case 9: return take(row, gen::arbitrary<std::array<std::multiset<unsigned short>, 3>>(), name);
  case 10: return take(row, gen::map(gen::arbitrary<std::pair<bool, int>>(), [](std::pair<bool, int> p) { return p.first ? std::make_shared<int>(p.second) : std::shared_ptr<int>(); }), name);
  case 11: {
    static const int numbers[] = {7, -3};
    return take(row, gen::tuple(gen::element<const int *>(nullptr, numbers, numbers + 1), gen::arbitrary<int>()), name);
  }
  case 12: return take(row, gen::element<const char *>(nullptr, "", "a\\n", "a\n"), name);
  case 13: return take(row, gen::map(gen::arbitrary<int>(), [](int x) { return Streamed{x}; }), name);
  case 14: return take(row, gen::container<std::vector<Both>>(gen::map(gen::arbitrary<int>(), [](int x) { return Both{x}; })), name);
  case 15: return take(row, gen::map(gen::arbitrary<int>(), [](int x) { return std::make_pair(Neither{x}, x); }), name);
  case 16: return take(row, gen::arbitrary<std::unordered_multimap<int, bool>>(), name);
  case 17: return take(row, gen::arbitrary<std::tuple<unsigned char, char, bool, long double>>(), name);
  case 18: return take(row, gen::makeShared<std::string>(anyBytes()), name);
  default: return take(row, gen::arbitrary<std::multimap<std::string, std::unordered_set<int>>>(), name);
  }
}

SCENARIO("display", 2) {
  reset("C05");
  TestParams p;
  p.seed = s.choose(1000000, "seed");
  p.maxSuccess = 20;
  p.maxSize = s.pick(std::vector<int>{10, 30, 100}, "max-size");
  p.disableShrinking = s.chance(1, 2, "noshrink");
  unsigned failAt = s.choose(20, "fail-at"), calls = 0;
  std::vector<std::pair<std::size_t, const char *>> kinds;
  for (int i = s.range(1, 4, "picks"); i > 0; i--) {
    kinds.emplace_back(s.choose(20, "kind"), s.chance(1, 3, "named") ? s.pick(std::vector<const char *>{"first", "n", "the other one"}, "name") : nullptr);
    s.sig(kinds.back().first);
  }
  bool args = s.chance(1, 2, "arguments");
  Quiet q(s);
  Row row, failing;
  auto body = [&] {
    for (auto &k : kinds) takeOne(row, k.first, k.second);
    bool fail = calls++ >= failAt;
    if (fail) failing = row;
    RC_ASSERT(!fail);
  };
  auto prop = args ? toProperty([&](const std::string &a, double b, const std::vector<unsigned char> &c) {
    row.assign(1, std::make_pair(typeToString<std::tuple<std::string, double, std::vector<unsigned char>>>(), pretty::of(std::make_tuple(a, b, c))));
    body();
  }) : toProperty([&] { row.clear(); body(); });
  auto res = testProperty(prop, TestMetadata(), p, q);
  FailureResult f;
  if (!res.match(f)) s.fail("failure-lost", "every case from some point on fails, but the check did not");
  s.fault("failing-program");
  s.count("displayed", f.counterExample.size());
  std::string want;
  for (auto &r : failing) want += r.first + "=" + r.second + "; ";
  want = pretty::anyAddress(want);
  bool ok = f.counterExample.size() == failing.size();
  for (std::size_t i = 0; ok && i < failing.size(); i++) {
    ok = pretty::anyAddress(f.counterExample[i].second) == pretty::anyAddress(failing[i].second) && f.counterExample[i].first == failing[i].first;
  }
  if (!ok) s.fail("untruthful-example", cat("the failing case received ", want, " the report shows ", pretty::anyAddress(exStr(f.counterExample))));
  checkPrinted(s, f);
}

} // namespace
