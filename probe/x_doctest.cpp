// Probe: doctest integration.
#include <iostream>
#include <doctest/doctest.h>
#include <rapidcheck/doctest.h>

namespace probe {
struct Prop {
  void operator()(int) const;
};
void doctestAdapter(const Prop &p, bool v) {
  rc::doctest::check("d", p, v);
  rc::doctest::check(p, v);
}
} // namespace probe
