// Probe: Catch integration.
#include <iostream>
#include <catch2/catch_test_macros.hpp>
#ifndef CATCH_TEST_MACROS_HPP_INCLUDED
#define CATCH_TEST_MACROS_HPP_INCLUDED
#endif
#include <rapidcheck/catch.h>

namespace probe {
struct Prop {
  void operator()(int) const;
};
void catchAdapter(const Prop &p, const std::string &d, bool v) { rc::prop(d, p, v); }
} // namespace probe
