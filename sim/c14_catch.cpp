#include "c14.h"
#include <catch2/catch_all.hpp>
#include <rapidcheck/catch.h>
using namespace c14;

namespace {
bool want(int slot) { for (auto &p : script.plans) if (p.slot == slot) return true; return false; }
void act(End e) {
  if (e == FrameworkFatal) { FAIL("ff-tok"); }
}
} // namespace
TEST_CASE("sim") {
  if (want(0)) rc::prop("s0", [](int x, const std::string &) { Life life(0); life.setUp(); act(c14::body(0, life.id, x)); });
  if (want(1)) rc::prop("s1", [](int x) { act(c14::body(1, -1, x)); });
  if (want(2)) rc::prop("s2", [](int x) -> bool { Life life(2); life.setUp(); act(c14::body(2, life.id, x)); return true; }, true);
  if (want(3)) SECTION("s3") {
    Plan &p = plan(3);
    for (int i = 0; i < p.plainFailures; i++) { emit("raise outside"); CHECK(i == -1); }
    SUCCEED();
  }
}
namespace {
std::vector<std::string> sections;
struct Reporter : Catch::EventListenerBase {
  using Catch::EventListenerBase::EventListenerBase;
  void sectionStarting(Catch::SectionInfo const &i) override { sections.push_back(i.name); if (i.name[0] == 's' && i.name.size() == 2) emit("start " + i.name); }
  void sectionEnded(Catch::SectionStats const &st) override {
    sections.pop_back();
    auto &n = st.sectionInfo.name;
    if (n.size() == 2) { emit("end " + n); emit("verdict " + n + (st.assertions.failed ? " fail" : " pass") + sim::cat(" ", st.assertions.passed)); }
  }
  void assertionEnded(Catch::AssertionStats const &st) override {
    auto &r = st.assertionResult;
    if (r.isOk()) return;
    std::string msg = r.hasMessage() ? std::string(r.getMessage()) : std::string();
    for (auto &m : st.infoMessages) msg += " " + m.message;
    emit("part " + (sections.empty() ? std::string("-") : sections.back()) + " fatal " + oneLine(msg));
  }
};
CATCH_REGISTER_LISTENER(Reporter)
} // namespace
namespace c14 {
void runCatch() {
  Catch::Session session;
  const char *argv[] = {"sim", "--reporter", "compact"};
  session.run(3, argv);
}
} // namespace c14
