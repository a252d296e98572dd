#include "prog_r.h"
namespace prog {
Property propR0(std::shared_ptr<Body> b) { return propR<0>(b); }
} // namespace prog
