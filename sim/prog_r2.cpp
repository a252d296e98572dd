#include "prog_r.h"
namespace prog {
Property propR2(std::shared_ptr<Body> b) { return propR<2>(b); }
} // namespace prog
