// C12: whatever user code throws, at any point, ends as the documented outcome.
#include "prog.h"
using namespace sim;
using namespace prog;

namespace {

SCENARIO("classify", 3) {
  reset("C12");
  ordinalTokens = true;
  BodyOpts o;
  o.genDepth = s.range(0, 2, "gen-depth");
  o.throwingGens = s.chance(1, 2, "throwing-gens");
  o.rejectingGens = s.chance(1, 2, "rejecting-gens");
  o.nestDepth = s.chance(1, 4, "nesting") ? 1 : 0;
  drawSlots(s, o);
  int n = s.range(1, 3, "checks");
  for (int i = 0; i < n; i++) {
    auto b = drawBody(s, o);
    s.log(b->str());
    s.sig(hashStr(b->str()));
    auto p = drawParams(s, paramSize(s));
    bool transient = s.chance(1, 3, "transient");
    if (transient) faults.arm(s, 200);
    CheckOpts co;
    co.examples = false;
    co.viaCheckProperty = s.chance(1, 2, "via");
    auto r = runCheck(b, p, co);
    faults.disarm();
    s.sig(hashStr(r.trace.back()));
    checkOutside(s);
  }
}

} // namespace
