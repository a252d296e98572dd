#include "c14.h"
#include <gtest/gtest.h>
#include <gmock/gmock.h>
#include <rapidcheck/gtest.h>
#include <rapidcheck/gmock.h>
using namespace c14;

namespace {
struct Mock { MOCK_METHOD1(call, int(int)); };

// The framework's own ways to fail.
void act(End e) {
  switch (e) {
  case Framework: EXPECT_EQ(1, 2) << "nf-tok"; break;
  case FrameworkTwice: ADD_FAILURE() << "nf-tok"; EXPECT_TRUE(false) << "nf-tok"; break;
  case FrameworkDiscard: EXPECT_EQ(1, 2) << "nf-tok"; RC_DISCARD("after failure");
  case MockUnexpected: { Mock m; EXPECT_CALL(m, call(1)).Times(testing::AnyNumber()); m.call(2); break; }
  case MockMissing: { Mock m; EXPECT_CALL(m, call(1)).Times(1); break; }
  default: break;
  }
}
} // namespace

class Fix : public ::testing::Test {
public:
  static int slot;
  Life life{slot};
  void SetUp() override { life.setUp(); }
  void TearDown() override { life.tearDown(); }
};
int Fix::slot = 0;
template <typename T>
class TFix : public ::testing::Test {
public:
  Life life{2};
  void SetUp() override { life.setUp(); }
  void TearDown() override { life.tearDown(); }
};
class Fix0 : public Fix { public: Fix0() {} };
using Types = ::testing::Types<int>;
TYPED_TEST_SUITE(TFix, Types);

RC_GTEST_FIXTURE_PROP(Fix0, s0, (int x, const std::string &)) { act(c14::body(0, life.id, x)); }
RC_GTEST_PROP(Plain, s1, (int x)) { act(c14::body(1, -1, x)); }
RC_GTEST_TYPED_FIXTURE_PROP(TFix, s2, (TypeParam x)) { act(c14::body(2, this->life.id, x)); }
TEST(Ordinary, s3) {
  Plan &p = plan(3);
  for (int i = 0; i < p.plainFailures; i++) {
    emit("raise outside");
    if (i % 2) ADD_FAILURE() << "outside-" << i; else EXPECT_EQ(3, 4) << "outside-" << i;
  }
}

namespace {
struct Delegate : ::testing::EmptyTestEventListener {
  void OnTestPartResult(const ::testing::TestPartResult &r) override {
    emit(sim::cat("delegate ", r.nonfatally_failed() ? "nonfatal" : r.fatally_failed() ? "fatal" : "other", " ", oneLine(r.message())));
  }
  void OnTestStart(const ::testing::TestInfo &i) override { emit(sim::cat("start ", i.name())); }
  void OnTestEnd(const ::testing::TestInfo &i) override { emit(sim::cat("end ", i.name())); }
};
} // namespace

namespace c14 {
void runGtest() {
  int argc = 1;
  char name[] = "sim";
  char *argv[] = {name, nullptr};
  ::testing::InitGoogleMock(&argc, argv);
  std::string filter;
  for (auto &p : script.plans) filter += (filter.empty() ? "*.s" : ":*.s") + std::to_string(p.slot);
  GTEST_FLAG_SET(filter, filter);
  GTEST_FLAG_SET(shuffle, script.shuffle);
  GTEST_FLAG_SET(random_seed, 7);
  auto &ls = ::testing::UnitTest::GetInstance()->listeners();
  if (script.listener != 3) delete ls.Release(ls.default_result_printer());
  if (script.listener == 1) ls.Append(new rc::gmock::RapidCheckListener(std::unique_ptr<::testing::TestEventListener>(new Delegate)));
  if (script.listener == 2) ls.Append(new rc::gmock::RapidCheckListener());
  if (script.listener == 3) rc::gmock::RapidCheckListener::install();
  if (script.listener == 0) ls.Append(new Delegate);
  int rc = RUN_ALL_TESTS();
  (void)rc;
  auto u = ::testing::UnitTest::GetInstance();
  for (int i = 0; i < u->total_test_suite_count(); i++) {
    auto su = u->GetTestSuite(i);
    for (int j = 0; j < su->total_test_count(); j++) {
      auto t = su->GetTestInfo(j);
      if (!t->should_run()) continue;
      auto r = t->result();
      emit(sim::cat("verdict ", t->name(), " ", r->Passed() ? "pass" : "fail"));
      for (int k = 0; k < r->total_part_count(); k++) {
        auto &part = r->GetTestPartResult(k);
        if (part.failed()) emit(sim::cat("part ", t->name(), " ", part.fatally_failed() ? "fatal" : "nonfatal", " ", oneLine(part.message())));
      }
    }
  }
}
} // namespace c14
