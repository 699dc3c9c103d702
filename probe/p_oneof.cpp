// Laws about generators of commands (C20).
#include <rapidcheck.h>
#include <rapidcheck/state.h>
using namespace rc;
namespace lst {
struct Model { Model(const Model &); Model(Model &&); Model &operator=(const Model &); Model &operator=(Model &&); ~Model(); };
struct Sut {};
using Cmd = state::Command<Model, Sut>;
using CmdSP = std::shared_ptr<const Cmd>;
struct CA : Cmd { CA(); explicit CA(const Model &); int a; };
struct CB : Cmd { CB(); int b; };
struct CC : Cmd { CC(); explicit CC(const Model &, const int &); int c; };

CmdSP l_pick(const Model &m, const Random &r, int s) {
  return state::gen::execOneOf<CA, CB>(m)(r, s).value();
}
CmdSP r_pick(const Model &m, const Random &r, int s) {
  Random q(r);
  const auto n = q.split().next() % 2;
  if (n == 0)
    return gen::exec([=] { return CmdSP(std::make_shared<CA>(m)); })(q, s).value();
  return gen::exec([=] { return CmdSP(std::make_shared<CB>()); })(q, s).value();
}
CmdSP l_args(const Model &m, const int &x, const Random &r, int s) {
  return state::gen::execOneOfWithArgs<CA, CB, CC>()(m, x)(r, s).value();
}
CmdSP r_args(const Model &m, const int &x, const Random &r, int s) {
  Random q(r);
  const auto n = q.split().next() % 3;
  if (n == 0)
    return gen::exec([=] { return CmdSP(std::make_shared<CA>()); })(q, s).value();
  if (n == 1)
    return gen::exec([=] { return CmdSP(std::make_shared<CB>()); })(q, s).value();
  return gen::exec([=] { return CmdSP(std::make_shared<CC>(m, x)); })(q, s).value();
}
} // namespace lst
