#include "payload.h"
namespace sim {
FaultPlan faults;
long Elem::live = 0;
bool Elem::copyFaults = false;
}
