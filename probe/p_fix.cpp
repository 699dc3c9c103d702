// Fixtures run by ExecFixture and by the test framework macros (C27).
#include <iostream>
#include <rapidcheck.h>
#include "rapidcheck/detail/ExecFixture.h"
namespace pfix {
struct PlFix {
  PlFix();
  ~PlFix();
  void rapidCheck_fixtureSetUp();
  void rapidCheck_fixtureTearDown();
  void operator()(int, const std::string &);
};
void plain(int a, const std::string &b) {
  rc::detail::ExecFixture<PlFix>::exec(std::move(a), b);
}
} // namespace pfix
