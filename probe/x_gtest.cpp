// Probe: GTest and GMock integration.
#include <iostream>
#include <gtest/gtest.h>
#include <gmock/gmock.h>
#include <rapidcheck/gtest.h>
#include <rapidcheck/gmock.h>

namespace probe {
struct Prop {
  void operator()(int) const;
};
void gtestAdapter(const Prop &p, rc::gmock::RapidCheckListener &l) {
  rc::detail::checkGTest(p);
  rc::gmock::RapidCheckListener::install();
  rc::gmock::RapidCheckListener l2;
}
struct GtFix : public ::testing::Test {
  GtFix();
  ~GtFix();
  void SetUp() override;
  void TearDown() override;
};
template <typename T>
struct TyFix : public GtFix {};
void body(int);
} // namespace probe
using probe::GtFix;
using probe::TyFix;
RC_GTEST_PROP(ProbeCase, freeProp, (int a)) { probe::body(a); }
RC_GTEST_FIXTURE_PROP(GtFix, fixProp, (int a)) { probe::body(a); }
using TyTypes = ::testing::Types<char>;
TYPED_TEST_SUITE(TyFix, TyTypes);
RC_GTEST_TYPED_FIXTURE_PROP(TyFix, tyProp, (int a)) { probe::body(a); }
