// Probe translation unit: instantiates the public API of RapidCheck so that the
// exporter sees resolved bodies.  It is never linked and never run.
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <rapidcheck/gen/Chrono.h>
#include <rapidcheck/seq/SeqIterator.h>
#include <rapidcheck/shrinkable/Operations.h>
#include <rapidcheck/detail/Serialization.h>
#include <rapidcheck/detail/Variant.h>
#include <rapidcheck/detail/ExecFixture.h>
#include <rapidcheck/detail/TestListenerAdapter.h>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace probe {
using namespace rc;

// User supplied callables.  They own state and are only declared: whatever they
// do (including throwing) is unknown to the analysis.
struct Fn {
  std::string state;
  int operator()(int) const;
};
struct Pred {
  std::string state;
  bool operator()(int) const;
};
struct StrPred {
  std::string state;
  bool operator()(const std::string &) const;
};
struct ToGen {
  std::string state;
  Gen<std::string> operator()(int) const;
};
struct MakeGen {
  std::string state;
  Gen<int> operator()() const;
};
struct ToShrSeq { Seq<Shrinkable<int>> operator()(int) const { return Seq<Shrinkable<int>>(); } };
struct ToSeq {
  std::string state;
  Seq<int> operator()(int) const;
};
struct ToMaybe {
  std::string state;
  Maybe<std::string> operator()(int) const;
};
struct ToShr {
  std::string state;
  Shrinkable<std::string> operator()(int) const;
};
struct Key {
  std::string state;
  std::string operator()(const int &) const;
};
struct Value0 {
  std::string state;
  int operator()() const;
};
struct Shr0 {
  std::string state;
  Seq<Shrinkable<int>> operator()() const;
};
struct SeqMap {
  std::string state;
  Seq<Shrinkable<int>> operator()(Seq<Shrinkable<int>>) const;
};
struct ShrPred {
  std::string state;
  bool operator()(const Shrinkable<int> &) const;
};
struct Zip {
  std::string state;
  int operator()(int, std::string) const;
};
struct Sized {
  std::string state;
  Gen<int> operator()(int) const;
};
struct SeqImpl0 {
  std::string state;
  Maybe<int> operator()();
};
struct GenImpl0 {
  std::string state;
  Shrinkable<int> operator()(const Random &, int) const;
};
struct ShrImpl0 {
  std::string state;
  int value() const;
  Seq<Shrinkable<int>> shrinks() const;
};
struct Callable2 {
  std::string state;
  std::string operator()(int, const std::string &) const;
};

struct Obj {
  int a;
  std::string b;
  Obj();
  Obj(int, std::string);
  void setA(int);
  void setBoth(int, std::string);
};

struct NC { // move only
  NC(int);
  NC(NC &&);
  NC &operator=(NC &&);
  NC(const NC &) = delete;
};

template <typename T>
void use(T &&);

void seqs(Seq<int> s, Seq<std::string> ss, Seq<Seq<int>> sq) {
  Fn f; Pred p; Zip z; ToSeq ts; ToMaybe tm; SeqImpl0 si;
  use(Seq<int>(si));
  use(Seq<int>(SeqImpl0()));
  use(Seq<int>());
  use(Seq<int>(Nothing));
  use(makeSeq<SeqImpl0>());
  use(makeSeq<SeqImpl0>(si));
  use(seq::drop(1, s));
  use(seq::take(1, s));
  use(seq::dropWhile(s, p));
  use(seq::dropWhile(s, Pred()));
  use(seq::takeWhile(s, p));
  use(seq::takeWhile(s, Pred()));
  use(seq::map(s, f));
  use(seq::map(s, Fn()));
  use(seq::zipWith(z, s, ss));
  use(seq::zipWith(Zip(), s, ss));
  use(seq::filter(s, p));
  use(seq::filter(s, Pred()));
  use(seq::join(sq));
  use(seq::concat(s));
  use(seq::concat(s, s));
  use(seq::concat(s, s, s));
  use(seq::mapcat(s, ts));
  use(seq::mapcat(s, ToSeq()));
  use(seq::mapMaybe(s, tm));
  use(seq::mapMaybe(s, ToMaybe()));
  use(seq::cycle(s));
  use(seq::cast<long>(s));
  int x = 0;
  use(seq::repeat(x));
  use(seq::repeat(std::string()));
  use(seq::just(x));
  use(seq::just(1, x, 3));
  std::vector<int> v;
  use(seq::fromContainer(v));
  use(seq::fromContainer(std::vector<int>()));
  use(seq::fromContainer(std::string()));
  use(seq::fromContainer(std::list<std::string>()));
  use(seq::fromIteratorRange(v.begin(), v.end()));
  use(seq::iterate(1, f));
  use(seq::iterate(x, Fn()));
  use(seq::range(1, 2));
  use(seq::range<std::size_t>(1, 2));
  use(seq::index());
  use(seq::subranges(1, 2));
  use(seq::length(s));
  seq::forEach(s, f);
  use(seq::last(s));
  use(seq::contains(s, 1));
  use(seq::all(s, p));
  use(seq::any(s, p));
  use(seq::at(s, 1));
  use(s == s);
  use(s != s);
  std::cout << s;
  auto it = begin(s);
  ++it; it++; use(*it); use(it == end(s)); use(it != end(s));
  Seq<int> t;
  t = s;
  t = std::move(s);
  use(t.next());
}

void shrinks(int x) {
  std::vector<int> v;
  ToSeq ts;
  use(shrink::removeChunks(v));
  use(shrink::removeChunks(std::string()));
  use(shrink::eachElement(v, ts));
  use(shrink::eachElement(std::vector<int>(), ToSeq()));
  use(shrink::towards(1, x));
  use(shrink::towards<long long>(1, x));
  use(shrink::towards<std::size_t>(1, 2));
  use(shrink::towards<signed char>(1, 2));
  use(shrink::towards<char>(1, 2));
  use(shrink::integral(x));
  use(shrink::integral<unsigned>(x));
  use(shrink::real(1.0));
  use(shrink::real(1.0f));
  use(shrink::boolean(true));
  use(shrink::character('a'));
  use(shrink::character(L'a'));
}

void shrinkables(Shrinkable<int> s, Shrinkable<std::string> ss) {
  Fn f; Pred p; Value0 v0; Shr0 s0; ToSeq ts; SeqMap sm; ToShr tsh; ShrPred sp;
  ShrImpl0 impl;
  use(makeShrinkable<ShrImpl0>());
  use(makeShrinkable<ShrImpl0>(impl));
  use(shrinkable::lambda(v0, s0));
  use(shrinkable::lambda(Value0(), Shr0()));
  use(shrinkable::lambda(v0));
  use(shrinkable::lambda(Value0()));
  int x = 1;
  use(shrinkable::just(x, Seq<Shrinkable<int>>()));
  use(shrinkable::just(1, Seq<Shrinkable<int>>()));
  use(shrinkable::just(x));
  use(shrinkable::just(std::string()));
  use(shrinkable::shrink(v0, ToShrSeq()));
  ToShrSeq tss;
  use(shrinkable::shrink(Value0(), tss));
  use(shrinkable::shrinkRecur(1, ts));
  use(shrinkable::shrinkRecur(x, ToSeq()));
  use(shrinkable::map(s, f));
  use(shrinkable::map(s, Fn()));
  use(shrinkable::mapShrinks(s, sm));
  use(shrinkable::mapShrinks(s, SeqMap()));
  use(shrinkable::filter(s, p));
  use(shrinkable::filter(s, Pred()));
  use(shrinkable::mapcat(s, tsh));
  use(shrinkable::mapcat(s, ToShr()));
  use(shrinkable::pair(s, ss));
  use(shrinkable::postShrink(s, ts));
  use(shrinkable::postShrink(s, ToSeq()));
  use(shrinkable::all(s, sp));
  use(shrinkable::findLocalMin(s, p));
  use(shrinkable::immediateShrinks(s));
  use(shrinkable::walkPath(s, std::vector<std::size_t>()));
  use(s == s);
  use(s != s);
  Shrinkable<int> t(s);
  t = s;
  t = std::move(s);
  use(t.value());
  use(t.shrinks());
}

void gens(Gen<int> g, Gen<std::string> gs, Gen<Gen<int>> gg) {
  Fn f; Pred p; ToGen tg; MakeGen mg; Key k; Sized sz; ToSeq ts; Callable2 c2;
  GenImpl0 gi;
  use(Gen<int>(gi));
  use(Gen<int>(GenImpl0()));
  use(gen::map(g, f));
  use(gen::map(g, Fn()));
  use(gen::map<int>(f));
  use(gen::map<int>(Fn()));
  use(gen::mapcat(g, tg));
  use(gen::mapcat(g, ToGen()));
  use(gen::join(gg));
  use(gen::apply(c2, g, gs));
  use(gen::apply(Callable2(), g, gs));
  use(gen::cast<long>(g));
  use(gen::resize(3, g));
  use(gen::scale(3.0, g));
  use(gen::withSize(sz));
  use(gen::withSize(Sized()));
  use(gen::noShrink(g));
  use(gen::shrink(g, ts));
  use(gen::shrink(g, ToSeq()));
  use(gen::suchThat(g, p));
  use(gen::suchThat(g, Pred()));
  use(gen::suchThat<int>(p));
  use(gen::suchThat<int>(Pred()));
  use(gen::nonEmpty(gs));
  use(gen::nonEmpty<std::vector<int>>());
  int x = 0;
  use(gen::distinctFrom(g, x));
  use(gen::distinctFrom(g, 1));
  use(gen::distinctFrom(x));
  use(gen::distinctFrom(std::string()));
  use(gen::nonZero<int>());
  use(gen::positive<int>());
  use(gen::negative<int>());
  use(gen::nonNegative<int>());
  use(gen::just(x));
  use(gen::just(std::string()));
  use(gen::lazy(mg));
  use(gen::lazy(MakeGen()));
  use(gen::maybe(g));
  use(gen::inRange(1, 2));
  use(gen::inRange<std::size_t>(1, 2));
  use(gen::inRange<signed char>(1, 2));
  use(gen::inRange<long long>(1, 2));
  use(gen::tuple(g, gs));
  use(gen::tuple());
  use(gen::tuple(g, gs, g));
  use(gen::pair(g, gs));
  use(gen::exec(c2));
  use(gen::exec(Callable2()));
  use(gen::exec([] { return *gen::arbitrary<int>(); }));
  use(gen::character<char>());
  use(gen::character<wchar_t>());
  use(gen::string<std::string>());
  use(gen::string<std::wstring>());

  std::vector<int> v;
  use(gen::elementOf(v));
  use(gen::elementOf(std::vector<int>()));
  use(gen::elementOf(std::string()));
  use(gen::elementOf(std::set<int>()));
  use(gen::element(x, 2, 3));
  use(gen::weightedElement<int>({{1, 2}, {3, 4}}));
  use(gen::sizedElementOf(v));
  use(gen::sizedElementOf(std::vector<int>()));
  use(gen::sizedElementOf(std::list<int>()));
  use(gen::sizedElement(x, 2, 3));
  use(gen::oneOf(g));
  use(gen::oneOf(g, g, g));
  use(gen::weightedOneOf<int>({{1, g}, {3, g}}));
  use(gen::sizedOneOf(g, g));

  use(gen::construct<Obj>(g, gs));
  use(gen::construct<Obj, int, std::string>());
  use(gen::makeUnique<Obj>(g, gs));
  use(gen::makeShared<Obj>(g, gs));
  use(gen::build(gen::construct<Obj>(g, gs), gen::set(&Obj::a, g),
                 gen::set(&Obj::b), gen::set(&Obj::setA, g),
                 gen::set(&Obj::setBoth, gen::tuple(g, gs))));
  use(gen::build<Obj>(gen::set(&Obj::a)));
  use(gen::build(gen::makeUnique<Obj>(g, gs), gen::set(&Obj::a, g)));
  use(gen::build(gen::makeShared<Obj>(g, gs), gen::set(&Obj::a, g)));

  use(gen::container<std::vector<int>>(g));
  use(gen::container<std::string>(gen::character<char>()));
  use(gen::container<std::deque<int>>(g));
  use(gen::container<std::list<int>>(g));
  use(gen::container<std::forward_list<int>>(g));
  use(gen::container<std::set<int>>(g));
  use(gen::container<std::multiset<int>>(g));
  use(gen::container<std::unordered_set<int>>(g));
  use(gen::container<std::unordered_multiset<int>>(g));
  use(gen::container<std::map<int, std::string>>(g, gs));
  use(gen::container<std::multimap<int, std::string>>(g, gs));
  use(gen::container<std::unordered_map<int, std::string>>(g, gs));
  use(gen::container<std::unordered_multimap<int, std::string>>(g, gs));
  use(gen::container<std::array<int, 3>>(g));
  use(gen::container<std::vector<int>>(3, g));
  use(gen::container<std::deque<int>>(3, g));
  use(gen::container<std::list<int>>(3, g));
  use(gen::container<std::forward_list<int>>(3, g));
  use(gen::container<std::set<int>>(3, g));
  use(gen::container<std::multiset<int>>(3, g));
  use(gen::container<std::unordered_set<int>>(3, g));
  use(gen::container<std::unordered_multiset<int>>(3, g));
  use(gen::container<std::map<int, std::string>>(3, g, gs));
  use(gen::container<std::multimap<int, std::string>>(3, g, gs));
  use(gen::container<std::unordered_map<int, std::string>>(3, g, gs));
  use(gen::container<std::unordered_multimap<int, std::string>>(3, g, gs));
  use(gen::container<std::array<int, 3>>(3, g));
  use(gen::unique<std::vector<int>>(g));
  use(gen::unique<std::list<int>>(g));
  use(gen::unique<std::vector<int>>(3, g));
  use(gen::uniqueBy<std::vector<int>>(g, k));
  use(gen::uniqueBy<std::vector<int>>(g, Key()));
  use(gen::uniqueBy<std::vector<int>>(3, g, k));
  use(gen::uniqueBy<std::vector<int>>(3, g, Key()));

  use(gen::arbitrary<bool>());
  use(gen::arbitrary<char>());
  use(gen::arbitrary<unsigned char>());
  use(gen::arbitrary<signed char>());
  use(gen::arbitrary<short>());
  use(gen::arbitrary<unsigned short>());
  use(gen::arbitrary<int>());
  use(gen::arbitrary<unsigned>());
  use(gen::arbitrary<long>());
  use(gen::arbitrary<unsigned long>());
  use(gen::arbitrary<long long>());
  use(gen::arbitrary<unsigned long long>());
  use(gen::arbitrary<float>());
  use(gen::arbitrary<double>());
  use(gen::arbitrary<std::string>());
  use(gen::arbitrary<std::wstring>());
  use(gen::arbitrary<Maybe<int>>());
  use(gen::arbitrary<std::tuple<int, std::string>>());
  use(gen::arbitrary<std::tuple<>>());
  use(gen::arbitrary<std::pair<int, std::string>>());
  use(gen::arbitrary<std::vector<int>>());
  use(gen::arbitrary<std::deque<int>>());
  use(gen::arbitrary<std::list<int>>());
  use(gen::arbitrary<std::forward_list<int>>());
  use(gen::arbitrary<std::set<int>>());
  use(gen::arbitrary<std::multiset<int>>());
  use(gen::arbitrary<std::unordered_set<int>>());
  use(gen::arbitrary<std::unordered_multiset<int>>());
  use(gen::arbitrary<std::map<int, std::string>>());
  use(gen::arbitrary<std::multimap<int, std::string>>());
  use(gen::arbitrary<std::unordered_map<int, std::string>>());
  use(gen::arbitrary<std::unordered_multimap<int, std::string>>());
  use(gen::arbitrary<std::array<int, 3>>());
  use(gen::arbitrary<std::chrono::seconds>());
  use(gen::arbitrary<std::chrono::system_clock::time_point>());
  use(gen::arbitrary<std::chrono::steady_clock::time_point>());

  Gen<int> h(g);
  h = g;
  h = std::move(g);
  use(*h);
  use(h.as("x"));
  use(h.name());
  use(h(Random(), 3));
}

// The user's property bodies
struct PropVoid { std::string state; void operator()(int, const std::string &) const; };
struct PropBool { std::string state; bool operator()(int) const; };
struct PropCase { std::string state; rc::detail::CaseResult operator()(int) const; };
struct PropStr { std::string state; std::string operator()() const; };

void properties() {
  PropVoid pv; PropBool pb; PropStr ps; PropCase pcr;
  use(rc::check(pcr));
  use(rc::check(pv));
  use(rc::check(PropVoid()));
  use(rc::check("x", pb));
  use(rc::check("x", ps));
  use(rc::detail::toProperty(pv));
  use(rc::detail::toProperty(PropBool()));
  use(rc::detail::toProperty(PropStr()));
}

struct ModelT {
  int x;
};
struct SutT {
  int y;
};
struct CmdA : state::Command<ModelT, SutT> {
  CmdA();
  explicit CmdA(const ModelT &);
  void checkPreconditions(const ModelT &) const override;
  void apply(ModelT &) const override;
  void run(const ModelT &, SutT &) const override;
  void show(std::ostream &) const override;
};
struct CmdB : state::Command<ModelT, SutT> {
  CmdB();
};
struct MakeModel {
  std::string state;
  ModelT operator()() const;
};
struct GenFuncT {
  std::string state;
  Gen<std::shared_ptr<const state::Command<ModelT, SutT>>>
  operator()(const ModelT &) const;
};
using Cmd = state::Command<ModelT, SutT>;

void states(SutT &sut, const ModelT &m, const state::Commands<Cmd> &cmds,
            const Cmd &cmd, ModelT &mm) {
  MakeModel mk; GenFuncT gf;
  state::check(m, sut, gf);
  state::check(mk, sut, gf);
  state::check(m, sut, state::gen::execOneOfWithArgs<CmdA, CmdB>());
  state::check(m, sut, &state::gen::execOneOf<CmdA, CmdB>);
  use(state::gen::commands(m, gf));
  use(state::gen::commands(mk, gf));
  use(state::gen::commands(MakeModel(), GenFuncT()));
  use(state::gen::execOneOf<CmdA, CmdB>(m));
  use(state::gen::execOneOfWithArgs<CmdA, CmdB>()(m));
  use(state::gen::execOneOfWithArgs<CmdA, CmdB>()());
  state::runAll(cmds, m, sut);
  state::runAll(cmds, mk, sut);
  state::applyAll(cmds, mm);
  use(state::isValidSequence(cmds, m));
  use(state::isValidSequence(cmds, mk));
  use(state::isValidCommand(cmd, m));
  use(cmd.nextState(m));
  rc::show(cmds, std::cout);
  rc::show(cmd, std::cout);
  rc::detail::showType<Cmd>(std::cout);
}

// Assertion macros: one function per macro.
bool cond();
int lhs();
int rhs();
void expr();
struct MyErr {};
void m_assert() { RC_ASSERT(cond()); }
void m_assert_eq() { RC_ASSERT(lhs() == rhs()); }
void m_assert_lt() { RC_ASSERT(lhs() < rhs()); }
void m_assert_or() { RC_ASSERT(lhs() || rhs()); }
void m_assert_false() { RC_ASSERT_FALSE(cond()); }
void m_assert_throws() { RC_ASSERT_THROWS(expr()); }
void m_assert_throws_as() { RC_ASSERT_THROWS_AS(expr(), MyErr); }
void m_fail() { RC_FAIL("msg"); }
void m_succeed_if() { RC_SUCCEED_IF(cond()); }
void m_succeed() { RC_SUCCEED("msg"); }
void m_pre() { RC_PRE(cond()); }
void m_discard() { RC_DISCARD("msg"); }
void m_fail0() { RC_FAIL(); }
void m_tag() { RC_TAG(1, std::string("x")); }
void m_classify() { RC_CLASSIFY(cond(), 1); }
void m_classify0() { RC_CLASSIFY(cond()); }
void m_log(const std::string &s) { RC_LOG() << 1; RC_LOG(s); }

struct Fix {
  Fix();
  ~Fix();
  void rapidCheck_fixtureSetUp();
  void rapidCheck_fixtureTearDown();
  void operator()(int, const std::string &);
};
void fixture() {
  use(rc::check("fix", &rc::detail::ExecFixture<Fix>::exec));
}

void shows(std::ostream &os) {
  use(toString(1));
  use(toString(std::string()));
  use(toString('c'));
  use(toString(true));
  use(toString(std::vector<int>()));
  use(toString(std::map<int, std::string>()));
  use(toString(std::multimap<int, std::string>()));
  use(toString(std::unordered_map<int, std::string>()));
  use(toString(std::unordered_multimap<int, std::string>()));
  use(toString(std::set<int>()));
  use(toString(std::multiset<int>()));
  use(toString(std::unordered_set<int>()));
  use(toString(std::unordered_multiset<int>()));
  use(toString(std::deque<int>()));
  use(toString(std::list<int>()));
  use(toString(std::forward_list<int>()));
  use(toString(std::array<int, 3>()));
  use(toString(std::tuple<int, std::string>()));
  use(toString(std::tuple<>()));
  use(toString(std::pair<int, std::string>()));
  use(toString(std::unique_ptr<int>()));
  use(toString(std::shared_ptr<int>()));
  use(toString((int *)nullptr));
  use(toString("abc"));
  use(toString(Maybe<int>()));
  use(toString(Obj()));
  use(toString(std::chrono::seconds(1)));
}

void maybes(Maybe<std::string> a, Maybe<std::string> b, std::string s) {
  Maybe<std::string> c(s), d(std::move(s)), e(Nothing), e2(a), e3(std::move(a));
  c = d; c = std::move(d); c = s; c = std::move(s); c = Nothing;
  use(*c); use(*std::move(c)); use(c->size());
  const Maybe<std::string> f(c);
  use(*f); use(f->size()); use(f == c); use(f != c);
  use((bool)f);
}

using Var = rc::detail::Variant<std::string, std::vector<int>>;
void variants(Var a, Var b, std::string s, std::vector<int> v) {
  Var c(s), d(v), e(std::move(s)), f(a), g(std::move(b));
  c = d; c = std::move(d); c = s; c = std::move(s); c = v; c = std::move(v);
  use(c.get<std::string>());
  use(std::move(c).get<std::string>());
  const Var h(c);
  use(h.get<std::string>());
  use(h.match(s));
  use(h.is<std::string>());
  use(h == c); use(h != c);
}

void anys() {
  using rc::detail::Any;
  Any a = Any::of(std::string());
  std::string s;
  Any b = Any::of(s);
  Any c(std::move(a));
  c = std::move(b);
  use(c.get<std::string>());
  const Any &cc = c;
  use(cc.get<std::string>());
}

void serialization(std::vector<std::uint8_t> v) {
  using namespace rc::detail;
  auto o = std::back_inserter(v);
  use(serialize(std::uint8_t(1), o));
  use(serialize(std::uint16_t(1), o));
  use(serialize(std::uint32_t(1), o));
  use(serialize(std::uint64_t(1), o));
  use(serialize(std::int32_t(1), o));
  use(serialize(std::size_t(1), o));
  std::unordered_map<std::string, std::uint32_t> m;
  use(serialize(m, o));
  use(serializeN(v.begin(), v.size(), o));
  std::pair<std::string, std::uint32_t> pr;
  use(serialize(pr, o));
  Random rr;
  use(serialize(rr, o));
  use(serializeCompact(std::uint64_t(1), o));
  use(serializeCompact(v.begin(), v.end(), o));
  std::uint8_t a; std::uint16_t b; std::uint32_t c; std::uint64_t d; std::string s; Random r;
  use(deserialize(v.begin(), v.end(), a));
  use(deserialize(v.begin(), v.end(), b));
  use(deserialize(v.begin(), v.end(), c));
  use(deserialize(v.begin(), v.end(), d));
  use(deserialize(v.begin(), v.end(), s));
  use(deserializeN<std::uint32_t>(v.begin(), v.end(), v.size(), o));
  use(deserializeCompact<std::uint64_t>(v.begin(), v.end(), o));
  use(deserialize(v.begin(), v.end(), m));
  use(deserialize(v.begin(), v.end(), pr));
  use(deserialize(v.begin(), v.end(), r));
  use(deserializeCompact(v.begin(), v.end(), d));
}

void bits(Random &r) {
  auto b = rc::detail::bitStreamOf(r);
  use(b.next<int>());
  use(b.next<int>(3));
  use(b.next<bool>());
  use(b.next<std::uint64_t>());
  use(b.nextWithSize<int>(3));
  use(b.nextWithSize<long long>(3));
  Random r2(r);
  use(r2.split()); use(r2.next()); use(r2 == r); use(r2 != r); use(r2 < r);
  std::cout << r2;
}
} // namespace probe

template class rc::Seq<int>;
template class rc::Maybe<std::string>;
template class rc::detail::ImplicitParam<rc::detail::param::CurrentPropertyContext>;
template class rc::detail::ImplicitParam<rc::gen::detail::param::CurrentHandler>;
