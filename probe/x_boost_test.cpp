// Probe: Boost.Test integration.
#include <iostream>
#define BOOST_TEST_DYN_LINK
#include <boost/test/unit_test.hpp>
#include <rapidcheck/boost_test.h>

namespace probe {
struct Prop {
  void operator()(int) const;
};
void boostAdapter(const Prop &p) { rc::detail::checkBoostTest(p); }
struct BoFix {
  BoFix();
  ~BoFix();
  int member;
};
void body(int);
} // namespace probe
using probe::BoFix;
RC_BOOST_PROP(freeProp, (int a)) { probe::body(a); }
RC_BOOST_FIXTURE_PROP(fixProp, BoFix, (int a)) { probe::body(a); }
