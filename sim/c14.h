// Shared script of a simulated test program under a test framework.
#pragma once
#include "sim.h"
#include <sstream>
#include <string>
#include <vector>

namespace c14 {

enum End { Ok, Succeed, DiscardCase, FailMacro, Assert, ThrowStd, ThrowInt, ThrowString,
           Framework,        // a framework failure that does not throw (gtest EXPECT_*)
           FrameworkTwice,   // two of them
           FrameworkDiscard, // one, then RC_DISCARD
           MockUnexpected, MockMissing, // gmock
           FrameworkFatal,   // a framework failure that throws
           NumEnds };

/// What one property (or plain test) of the program does.
struct Plan {
  int slot = 0;
  bool plain = false;      // an ordinary test of the framework
  std::uint64_t seed = 0;
  int threshold = 1 << 30; // arguments from here on fail
  int discardNum = 0;      // of 8
  End failEnd = FailMacro;
  int ctorThrowAt = 0, setUpThrowAt = 0, tearDownThrowAt = 0, bodyThrowAt = 0; // ordinals, 0 never
  int plainFailures = 0;
  bool outer = false; // the framework itself makes one fixture around the property
  // run time
  int execs = 0, ctors = 0, setUps = 0, tearDowns = 0, instances = 0, live = 0;
  End endOf(int x) const {
    if (x >= threshold) return failEnd;
    if (static_cast<int>(sim::mix(seed, x) % 8) < discardNum) return DiscardCase;
    return sim::mix(seed, x + 1000) % 4 == 0 ? Succeed : Ok;
  }
};

struct Script {
  std::vector<Plan> plans;
  int listener = 0; // gmock: none, recording delegate, no delegate, install()
  bool shuffle = false;
  int repeat = 1;
};
extern Script script;
extern std::string out;
Plan &plan(int slot);
inline void emit(const std::string &l) { out += l + "\n"; }
std::string oneLine(std::string s);

/// Fixture state with a recorded life.
struct Life {
  int slot, id;
  explicit Life(int slot);
  ~Life();
  void setUp();
  void tearDown();
};
/// Logs, records and decides the body of one case; throwing ends happen here.
End body(int slot, int inst, int x);

const int kSlots = 4;
void runGtest();
void runBoost();
void runCatch();
void runDoctest();

} // namespace c14
