#include "prog_r.h"
namespace prog {
Property propR1(std::shared_ptr<Body> b) { return propR<1>(b); }
} // namespace prog
