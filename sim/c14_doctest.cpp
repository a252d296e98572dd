#include "c14.h"
#define DOCTEST_CONFIG_IMPLEMENT
#define DOCTEST_CONFIG_NO_POSIX_SIGNALS
#include <doctest/doctest.h>
#include <rapidcheck/doctest.h>
using namespace c14;

namespace {
bool want(int slot) { for (auto &p : script.plans) if (p.slot == slot) return true; return false; }
void act(End e) {
  if (e == FrameworkFatal) { FAIL("ff-tok"); }
}
} // namespace
TEST_CASE("sim") {
  if (want(0)) rc::doctest::check("s0", [](int x, const std::string &) { Life life(0); life.setUp(); act(c14::body(0, life.id, x)); });
  if (want(1)) rc::doctest::check([](int x) { act(c14::body(1, -1, x)); }); // has no name
  if (want(2)) rc::doctest::check("s2", [](int x) -> bool { Life life(2); life.setUp(); act(c14::body(2, life.id, x)); return true; }, true);
  if (want(3)) SUBCASE("s3") {
    Plan &p = plan(3);
    for (int i = 0; i < p.plainFailures; i++) { emit("raise outside"); CHECK(i == -1); }
  }
}
namespace {
struct Reporter : doctest::IReporter {
  std::vector<std::string> open;
  int good = 0, bad = 0;
  explicit Reporter(const doctest::ContextOptions &) {}
  void report_query(const doctest::QueryData &) override {}
  void test_run_start() override {}
  void test_run_end(const doctest::TestRunStats &) override {}
  void test_case_start(const doctest::TestCaseData &) override {}
  void test_case_reenter(const doctest::TestCaseData &) override {}
  void test_case_end(const doctest::CurrentTestCaseStats &) override {}
  void test_case_exception(const doctest::TestCaseException &e) override { emit("part " + name() + " exception " + oneLine(e.error_string.c_str())); }
  void subcase_start(const doctest::SubcaseSignature &n) override {
    open.push_back(n.m_name.size() ? n.m_name.c_str() : "s1");
    good = bad = 0;
    emit("start " + open.back());
  }
  void subcase_end() override {
    std::string n = name();
    open.pop_back();
    emit("end " + n);
    emit("verdict " + n + (bad ? " fail" : " pass") + sim::cat(" ", good));
  }
  void log_assert(const doctest::AssertData &a) override {
    if (!a.m_failed) { good++; return; }
    if (a.m_at & doctest::assertType::is_warn) return; // does not count
    bad++;
    std::ostringstream msg;
    for (int i = 0; i < get_num_active_contexts(); i++) get_active_contexts()[i]->stringify(&msg);
    emit("part " + name() + " fatal " + oneLine(msg.str()));
  }
  void log_message(const doctest::MessageData &m) override {
    bad++;
    emit("part " + name() + " fatal " + oneLine(m.m_string.c_str()));
  }
  void test_case_skipped(const doctest::TestCaseData &) override {}
  std::string name() const { return open.empty() ? "-" : open.back(); }
};
DOCTEST_REGISTER_LISTENER("sim", 1, Reporter);
} // namespace
namespace c14 {
void runDoctest() {
  doctest::Context c;
  c.setOption("no-breaks", true);
  c.setOption("success", true);
  c.setOption("no-colors", true);
  c.run();
}
} // namespace c14
