#include "prog_r.h"
namespace prog {
Property propR3(std::shared_ptr<Body> b) { return propR<3>(b); }
} // namespace prog
