#include "c14.h"
#define BOOST_TEST_NO_MAIN
#define BOOST_TEST_ALTERNATIVE_INIT_API
#include <boost/test/included/unit_test.hpp>
#include <rapidcheck/boost_test.h>
using namespace c14;

namespace {
struct Fix {
  Life life{0};
  Fix() { life.setUp(); }
};
struct FixB {
  Life life{2};
  FixB() { life.setUp(); }
};
void act(End e) {
  if (e == FrameworkFatal) BOOST_FAIL("ff-tok");
}
} // namespace
BOOST_AUTO_TEST_SUITE(sim_suite)
RC_BOOST_FIXTURE_PROP(s0, Fix, (int x, const std::string &)) { act(c14::body(0, life.id, x)); }
RC_BOOST_PROP(s1, (int x)) { act(c14::body(1, -1, x)); }
RC_BOOST_FIXTURE_PROP(s2, FixB, (int x)) { act(c14::body(2, life.id, x)); }
BOOST_AUTO_TEST_CASE(s3) {
  Plan &p = plan(3);
  for (int i = 0; i < p.plainFailures; i++) { emit("raise outside"); BOOST_ERROR("outside"); }
  BOOST_CHECK(true);
}
BOOST_AUTO_TEST_SUITE_END()

namespace {
namespace ut = boost::unit_test;
struct Obs : ut::test_observer {
  std::string cur;
  bool bad = false;
  int parts = 0;
  void test_unit_start(ut::test_unit const &u) override {
    if (u.p_type != ut::TUT_CASE) return;
    cur = u.p_name.get();
    bad = false;
    emit("start " + cur);
  }
  void assertion_result(ut::assertion_result r) override {
    if (r == ut::AR_FAILED) { bad = true; emit("part " + cur + " fatal -"); }
  }
  void exception_caught(boost::execution_exception const &e) override { bad = true; emit("part " + cur + " exception " + oneLine(std::string(e.what().begin(), e.what().end()))); }
  void test_unit_finish(ut::test_unit const &u, unsigned long) override {
    if (u.p_type != ut::TUT_CASE) return;
    emit("end " + cur);
    emit("verdict " + cur + (bad ? " fail" : " pass"));
  }
};
Obs obs;
std::ostringstream logged;
} // namespace
namespace c14 {
void runBoost() {
  std::string filter = "--run_test=";
  bool first = true;
  for (auto &p : script.plans) { filter += (first ? "sim_suite/s" : ",s") + std::to_string(p.slot); first = false; }
  std::vector<std::string> args{"sim", filter, "--report_level=no", "--log_level=error", "--catch_system_errors=no", "--color_output=no"};
  std::vector<char *> argv;
  for (auto &a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  ut::unit_test_main([]() -> bool { ut::framework::register_observer(obs); ut::unit_test_log.set_stream(logged); return true; },
                     static_cast<int>(args.size()), argv.data());
  std::istringstream is(logged.str());
  std::string l;
  emit("log " + oneLine(logged.str()));
}
} // namespace c14
