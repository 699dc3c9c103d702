// Command sequences of stateful tests (C20), over an opaque model and system.
#include <rapidcheck.h>
#include <rapidcheck/state.h>
using namespace rc;
namespace pst {
struct Model { Model(const Model &); Model(Model &&); Model &operator=(const Model &); Model &operator=(Model &&); ~Model(); };
struct Sut {};
using Cmd = state::Command<Model, Sut>;
using CmdSP = std::shared_ptr<const Cmd>;
using Cmds = state::Commands<Cmd>;
struct GF { Gen<CmdSP> operator()(const Model &) const; };
struct MI { Model operator()() const; };
void lenient();   // what follows finds every command valid
void skip();      // the same, but another time it may be found invalid
void strict();

Cmds initial(const Model &m, const GF &g, const Random &r, int size) {
  return state::gen::commands(m, g)(r, size).value();
}
Cmds initialF(const MI &m, const GF &g, const Random &r, int size) {
  return state::gen::commands(m, g)(r, size).value();
}

using Result = std::pair<Cmds, Maybe<Cmds>>;

// the sequence generated and its K-th shrink
template <int K>
Result shrink(const Model &m, const GF &g, const Random &r, int size) {
  lenient();
  auto s = state::gen::commands(m, g)(r, size);
  skip();
  auto q = s.shrinks();
  for (int i = 0; i < K; i++)
    q.next();
  strict();
  auto x = q.next();
  if (!x) return Result(s.value(), Nothing);
  return Result(s.value(), x->value());
}
#define INST(K) template Result shrink<K>(const Model &, const GF &, const Random &, int);
INST(0) INST(1) INST(2) INST(3) INST(4) INST(5) INST(6) INST(7) INST(8)
// (for sequences of more than three commands)
INST(9) INST(10) INST(11) INST(12) INST(13) INST(14) INST(15) INST(16) INST(17) INST(18) INST(19)

using Result2 = std::pair<Result, Maybe<Cmds>>;

// the sequence generated, its K-th shrink and the L-th shrink of that
template <int K, int L>
Result2 shrink2(const Model &m, const GF &g, const Random &r, int size) {
  lenient();
  auto s = state::gen::commands(m, g)(r, size);
  skip();
  auto q = s.shrinks();
  for (int i = 0; i < K; i++)
    q.next();
  strict();
  auto x = q.next();
  if (!x) return Result2(Result(s.value(), Nothing), Nothing);
  skip();
  auto q2 = x->shrinks();
  for (int i = 0; i < L; i++)
    q2.next();
  strict();
  auto y = q2.next();
  if (!y) return Result2(Result(s.value(), x->value()), Nothing);
  return Result2(Result(s.value(), x->value()), y->value());
}
#define INST2(K, L) template Result2 shrink2<K, L>(const Model &, const GF &, const Random &, int);
INST2(1, 0) INST2(1, 1) INST2(2, 0) INST2(3, 0) INST2(3, 1) INST2(3, 2) INST2(3, 3) INST2(4, 0) INST2(4, 1) INST2(4, 2)

// running commands
void runAll(const CmdSP &a, const CmdSP &b, const Model &m, Sut &s) {
  Cmds c{a, b};
  state::runAll(c, m, s);
}
void runAllF(const CmdSP &a, const CmdSP &b, const MI &m, Sut &s) {
  Cmds c{a, b};
  state::runAll(c, m, s);
}
void applyAll(const CmdSP &a, const CmdSP &b, Model &m) {
  Cmds c{a, b};
  state::applyAll(c, m);
}
bool isValidSequence(const CmdSP &a, const CmdSP &b, const Model &m) {
  Cmds c{a, b};
  return state::isValidSequence(c, m);
}
bool isValidSequenceF(const CmdSP &a, const CmdSP &b, const MI &m) {
  Cmds c{a, b};
  return state::isValidSequence(c, m);
}
bool isValidCommand(const CmdSP &a, const Model &m) {
  return state::isValidCommand(*a, m);
}
Model nextState(const CmdSP &a, const Model &m) {
  return a->nextState(m);
}
void check(const Model &m, Sut &s, const GF &g) {
  state::check(m, s, g);
}
Cmds checkGen(const Model &m, const GF &g) {
  return *state::gen::commands(m, g);
}
Cmds checkFGen(const MI &m, const GF &g) {
  return *state::gen::commands(MI(m), g);
}
void checkF(const MI &m, Sut &s, const GF &g) {
  state::check(MI(m), s, g);
}
} // namespace pst
