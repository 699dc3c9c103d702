// Probe: Boost generators.
#include <rapidcheck.h>
#include <rapidcheck/boost.h>

namespace probe {
void boostGens(const rc::Gen<int> &g) {
  (void)rc::gen::boost::optional(g);
  (void)rc::gen::arbitrary<boost::optional<int>>();
}
} // namespace probe
