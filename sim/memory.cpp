// Allocation under the simulator: see sim::Memory. The other forms of new stay
// with the sanitizer.
#include "sim.h"
#include <cstdlib>
#include <new>

void *operator new(std::size_t n) {
  auto &m = sim::memory;
  if (m.armed && !m.pause && --m.countdown == 0) {
    m.armed = false;
    m.failed++;
    throw std::bad_alloc();
  }
  if (void *p = std::malloc(n)) return p;
  throw std::bad_alloc();
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
