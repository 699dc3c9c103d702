// Laws about the assertion macros (C26).  l_x uses a macro, r_x states what it
// is documented to do.
#include <rapidcheck.h>
using namespace rc;
using rc::detail::CaseResult;
namespace lmac {
struct A { A(const A &); ~A(); };
struct B { B(const B &); ~B(); };
struct E { E(const E &); ~E(); explicit operator bool() const; };
std::ostream &operator<<(std::ostream &, const A &);
std::ostream &operator<<(std::ostream &, const B &);
std::ostream &operator<<(std::ostream &, const E &);
void act();
struct Err { int code; };
using T = CaseResult::Type;
struct Out { bool threw; T type; std::string text; };
#define CAUGHT(...) try { __VA_ARGS__; } catch (const CaseResult &r) { return Out{true, r.type, r.description}; } return Out{false, T::Failure, ""}
inline Out fine() { return Out{false, T::Failure, ""}; }
inline Out result(T t, const std::string &text) { return Out{true, t, text}; }
template <typename X> std::string shown(const X &x) { std::ostringstream os; os << x; return os.str(); }

E operator*(const A &, const B &);
E operator/(const A &, const B &);
E operator%(const A &, const B &);
E operator+(const A &, const B &);
E operator-(const A &, const B &);
E operator<<(const A &, const B &);
E operator>>(const A &, const B &);
E operator<(const A &, const B &);
E operator>(const A &, const B &);
E operator>=(const A &, const B &);
E operator<=(const A &, const B &);
E operator==(const A &, const B &);
E operator!=(const A &, const B &);
E operator&(const A &, const B &);
E operator^(const A &, const B &);
E operator|(const A &, const B &);
E operator&&(const A &, const B &);
E operator||(const A &, const B &);
E operator*(const B &, const A &);
E operator/(const B &, const A &);
E operator%(const B &, const A &);
E operator+(const B &, const A &);
E operator-(const B &, const A &);
E operator<<(const B &, const A &);
E operator>>(const B &, const A &);
E operator<(const B &, const A &);
E operator>(const B &, const A &);
E operator>=(const B &, const A &);
E operator<=(const B &, const A &);
E operator==(const B &, const A &);
E operator!=(const B &, const A &);
E operator&(const B &, const A &);
E operator^(const B &, const A &);
E operator|(const B &, const A &);
E operator&&(const B &, const A &);
E operator||(const B &, const A &);
#line 10 "file"
Out l_mul(const A &a, const B &b) { CAUGHT(RC_ASSERT(a * b)); }
Out r_mul(const A &a, const B &b) { if (a * b) return fine(); return result(T::Failure, "file:10:\nRC_ASSERT(a * b)\n\nExpands to:\n" + shown(a) + " * " + shown(b)); }
#line 20 "file"
Out l_div(const A &a, const B &b) { CAUGHT(RC_ASSERT(a / b)); }
Out r_div(const A &a, const B &b) { if (a / b) return fine(); return result(T::Failure, "file:20:\nRC_ASSERT(a / b)\n\nExpands to:\n" + shown(a) + " / " + shown(b)); }
#line 30 "file"
Out l_rem(const A &a, const B &b) { CAUGHT(RC_ASSERT(a % b)); }
Out r_rem(const A &a, const B &b) { if (a % b) return fine(); return result(T::Failure, "file:30:\nRC_ASSERT(a % b)\n\nExpands to:\n" + shown(a) + " % " + shown(b)); }
#line 40 "file"
Out l_plus(const A &a, const B &b) { CAUGHT(RC_ASSERT(a + b)); }
Out r_plus(const A &a, const B &b) { if (a + b) return fine(); return result(T::Failure, "file:40:\nRC_ASSERT(a + b)\n\nExpands to:\n" + shown(a) + " + " + shown(b)); }
#line 50 "file"
Out l_minus(const A &a, const B &b) { CAUGHT(RC_ASSERT(a - b)); }
Out r_minus(const A &a, const B &b) { if (a - b) return fine(); return result(T::Failure, "file:50:\nRC_ASSERT(a - b)\n\nExpands to:\n" + shown(a) + " - " + shown(b)); }
#line 60 "file"
Out l_lsh(const A &a, const B &b) { CAUGHT(RC_ASSERT(a << b)); }
Out r_lsh(const A &a, const B &b) { if (a << b) return fine(); return result(T::Failure, "file:60:\nRC_ASSERT(a << b)\n\nExpands to:\n" + shown(a) + " << " + shown(b)); }
#line 70 "file"
Out l_rsh(const A &a, const B &b) { CAUGHT(RC_ASSERT(a >> b)); }
Out r_rsh(const A &a, const B &b) { if (a >> b) return fine(); return result(T::Failure, "file:70:\nRC_ASSERT(a >> b)\n\nExpands to:\n" + shown(a) + " >> " + shown(b)); }
#line 80 "file"
Out l_lt(const A &a, const B &b) { CAUGHT(RC_ASSERT(a < b)); }
Out r_lt(const A &a, const B &b) { if (a < b) return fine(); return result(T::Failure, "file:80:\nRC_ASSERT(a < b)\n\nExpands to:\n" + shown(a) + " < " + shown(b)); }
#line 90 "file"
Out l_gt(const A &a, const B &b) { CAUGHT(RC_ASSERT(a > b)); }
Out r_gt(const A &a, const B &b) { if (a > b) return fine(); return result(T::Failure, "file:90:\nRC_ASSERT(a > b)\n\nExpands to:\n" + shown(a) + " > " + shown(b)); }
#line 100 "file"
Out l_ge(const A &a, const B &b) { CAUGHT(RC_ASSERT(a >= b)); }
Out r_ge(const A &a, const B &b) { if (a >= b) return fine(); return result(T::Failure, "file:100:\nRC_ASSERT(a >= b)\n\nExpands to:\n" + shown(a) + " >= " + shown(b)); }
#line 110 "file"
Out l_le(const A &a, const B &b) { CAUGHT(RC_ASSERT(a <= b)); }
Out r_le(const A &a, const B &b) { if (a <= b) return fine(); return result(T::Failure, "file:110:\nRC_ASSERT(a <= b)\n\nExpands to:\n" + shown(a) + " <= " + shown(b)); }
#line 120 "file"
Out l_eq(const A &a, const B &b) { CAUGHT(RC_ASSERT(a == b)); }
Out r_eq(const A &a, const B &b) { if (a == b) return fine(); return result(T::Failure, "file:120:\nRC_ASSERT(a == b)\n\nExpands to:\n" + shown(a) + " == " + shown(b)); }
#line 130 "file"
Out l_ne(const A &a, const B &b) { CAUGHT(RC_ASSERT(a != b)); }
Out r_ne(const A &a, const B &b) { if (a != b) return fine(); return result(T::Failure, "file:130:\nRC_ASSERT(a != b)\n\nExpands to:\n" + shown(a) + " != " + shown(b)); }
#line 140 "file"
Out l_and(const A &a, const B &b) { CAUGHT(RC_ASSERT(a & b)); }
Out r_and(const A &a, const B &b) { if (a & b) return fine(); return result(T::Failure, "file:140:\nRC_ASSERT(a & b)\n\nExpands to:\n" + shown(a) + " & " + shown(b)); }
#line 150 "file"
Out l_xor(const A &a, const B &b) { CAUGHT(RC_ASSERT(a ^ b)); }
Out r_xor(const A &a, const B &b) { if (a ^ b) return fine(); return result(T::Failure, "file:150:\nRC_ASSERT(a ^ b)\n\nExpands to:\n" + shown(a) + " ^ " + shown(b)); }
#line 160 "file"
Out l_or(const A &a, const B &b) { CAUGHT(RC_ASSERT(a | b)); }
Out r_or(const A &a, const B &b) { if (a | b) return fine(); return result(T::Failure, "file:160:\nRC_ASSERT(a | b)\n\nExpands to:\n" + shown(a) + " | " + shown(b)); }
#line 170 "file"
Out l_land(const A &a, const B &b) { CAUGHT(RC_ASSERT(a && b)); }
Out r_land(const A &a, const B &b) { if (a && b) return fine(); return result(T::Failure, "file:170:\nRC_ASSERT(a && b)\n\nExpands to:\n" + shown(a) + " && " + shown(b)); }
#line 180 "file"
Out l_lor(const A &a, const B &b) { CAUGHT(RC_ASSERT(a || b)); }
Out r_lor(const A &a, const B &b) { if (a || b) return fine(); return result(T::Failure, "file:180:\nRC_ASSERT(a || b)\n\nExpands to:\n" + shown(a) + " || " + shown(b)); }
#line 190 "file"
Out l_assert(const E &e) { CAUGHT(RC_ASSERT(e)); }
Out r_assert(const E &e) { if (e) return fine(); return result(T::Failure, "file:190:\nRC_ASSERT(e)\n\nExpands to:\n" + shown(e)); }
#line 200 "file"
Out l_assertB(bool e) { CAUGHT(RC_ASSERT(e)); }
Out r_assertB(bool e) { if (e) return fine(); return result(T::Failure, "file:200:\nRC_ASSERT(e)\n\nExpands to:\n" + toString(e)); }
#line 210 "file"
Out l_assertFalse(const E &e) { CAUGHT(RC_ASSERT_FALSE(e)); }
Out r_assertFalse(const E &e) { if (!e) return fine(); return result(T::Failure, "file:210:\nRC_ASSERT_FALSE(e)\n\nExpands to:\n" + shown(e)); }
#line 220 "file"
Out l_assertFalseB(bool e) { CAUGHT(RC_ASSERT_FALSE(e)); }
Out r_assertFalseB(bool e) { if (!e) return fine(); return result(T::Failure, "file:220:\nRC_ASSERT_FALSE(e)\n\nExpands to:\n" + toString(e)); }
#line 230 "file"
Out l_assertFalseEq(const A &a, const B &b) { CAUGHT(RC_ASSERT_FALSE(a == b)); }
Out r_assertFalseEq(const A &a, const B &b) { if (!(a == b)) return fine(); return result(T::Failure, "file:230:\nRC_ASSERT_FALSE(a == b)\n\nExpands to:\n" + shown(a) + " == " + shown(b)); }
#line 240 "file"
Out l_succeedIf(const E &e) { CAUGHT(RC_SUCCEED_IF(e)); }
Out r_succeedIf(const E &e) { if (!e) return fine(); return result(T::Success, "file:240:\nRC_SUCCEED_IF(e)\n\nExpands to:\n" + shown(e)); }
#line 250 "file"
Out l_succeedIfB(bool e) { CAUGHT(RC_SUCCEED_IF(e)); }
Out r_succeedIfB(bool e) { if (!e) return fine(); return result(T::Success, "file:250:\nRC_SUCCEED_IF(e)\n\nExpands to:\n" + toString(e)); }
#line 260 "file"
Out l_succeedIfEq(const A &a, const B &b) { CAUGHT(RC_SUCCEED_IF(a == b)); }
Out r_succeedIfEq(const A &a, const B &b) { if (!(a == b)) return fine(); return result(T::Success, "file:260:\nRC_SUCCEED_IF(a == b)\n\nExpands to:\n" + shown(a) + " == " + shown(b)); }
#line 270 "file"
Out l_pre(const E &e) { CAUGHT(RC_PRE(e)); }
Out r_pre(const E &e) { if (e) return fine(); return result(T::Discard, "file:270:\nRC_PRE(e)\n\nExpands to:\n" + shown(e)); }
#line 280 "file"
Out l_preB(bool e) { CAUGHT(RC_PRE(e)); }
Out r_preB(bool e) { if (e) return fine(); return result(T::Discard, "file:280:\nRC_PRE(e)\n\nExpands to:\n" + toString(e)); }
#line 290 "file"
Out l_preEq(const A &a, const B &b) { CAUGHT(RC_PRE(a == b)); }
Out r_preEq(const A &a, const B &b) { if (!!(a == b)) return fine(); return result(T::Discard, "file:290:\nRC_PRE(a == b)\n\nExpands to:\n" + shown(a) + " == " + shown(b)); }
E operator+(const E &, const B &);
E operator<(const E &, const B &);
E operator||(const E &, const B &);
E operator&&(const E &, const B &);
#line 300 "file"
Out l_chainOr(const A &a, const B &b) { CAUGHT(RC_ASSERT(a < b || b)); }
Out r_chainOr(const A &a, const B &b) { if (a < b || b) return fine(); return result(T::Failure, "file:300:\nRC_ASSERT(a < b || b)\n\nExpands to:\n" + shown(a) + " < " + shown(b) + " || " + shown(b)); }
#line 310 "file"
Out l_chainAnd(const A &a, const B &b) { CAUGHT(RC_ASSERT(a == b && b)); }
Out r_chainAnd(const A &a, const B &b) { if (a == b && b) return fine(); return result(T::Failure, "file:310:\nRC_ASSERT(a == b && b)\n\nExpands to:\n" + shown(a) + " == " + shown(b) + " && " + shown(b)); }
#line 320 "file"
Out l_chainLt(const A &a, const B &b) { CAUGHT(RC_ASSERT(a + b < b)); }
Out r_chainLt(const A &a, const B &b) { if (a + b < b) return fine(); return result(T::Failure, "file:320:\nRC_ASSERT(a + b < b)\n\nExpands to:\n" + shown(a) + " + " + shown(b) + " < " + shown(b)); }
#line 330 "file"
Out l_fail(const std::string &msg) { CAUGHT(RC_FAIL(msg)); }
Out r_fail(const std::string &msg) { if (msg.empty()) return result(T::Failure, "file:330:\nRC_FAIL(msg)"); return result(T::Failure, "file:330:\nRC_FAIL(msg)\n\n" + msg); }
#line 340 "file"
Out l_failLit() { CAUGHT(RC_FAIL("why")); }
Out r_failLit() { return result(T::Failure, "file:340:\nRC_FAIL(\"why\")\n\nwhy"); }
#line 350 "file"
Out l_fail0() { CAUGHT(RC_FAIL()); }
Out r_fail0() { return result(T::Failure, "file:350:\nRC_FAIL()"); }
#line 360 "file"
Out l_succeed(const std::string &msg) { CAUGHT(RC_SUCCEED(msg)); }
Out r_succeed(const std::string &msg) { if (msg.empty()) return result(T::Success, "file:360:\nRC_SUCCEED(msg)"); return result(T::Success, "file:360:\nRC_SUCCEED(msg)\n\n" + msg); }
#line 370 "file"
Out l_succeedLit() { CAUGHT(RC_SUCCEED("why")); }
Out r_succeedLit() { return result(T::Success, "file:370:\nRC_SUCCEED(\"why\")\n\nwhy"); }
#line 380 "file"
Out l_succeed0() { CAUGHT(RC_SUCCEED()); }
Out r_succeed0() { return result(T::Success, "file:380:\nRC_SUCCEED()"); }
#line 390 "file"
Out l_discard(const std::string &msg) { CAUGHT(RC_DISCARD(msg)); }
Out r_discard(const std::string &msg) { if (msg.empty()) return result(T::Discard, "file:390:\nRC_DISCARD(msg)"); return result(T::Discard, "file:390:\nRC_DISCARD(msg)\n\n" + msg); }
#line 400 "file"
Out l_discardLit() { CAUGHT(RC_DISCARD("why")); }
Out r_discardLit() { return result(T::Discard, "file:400:\nRC_DISCARD(\"why\")\n\nwhy"); }
#line 410 "file"
Out l_discard0() { CAUGHT(RC_DISCARD()); }
Out r_discard0() { return result(T::Discard, "file:410:\nRC_DISCARD()"); }
#line 420 "file"
Out l_throws() { CAUGHT(RC_ASSERT_THROWS(act())); }
Out r_throws() { act(); return result(T::Failure, "file:420:\nRC_ASSERT_THROWS(act())\n\nNo exception was thrown."); }
#line 430 "file"
Out l_throwsYes(const Err &x) { CAUGHT(RC_ASSERT_THROWS(throw x)); }
Out r_throwsYes(const Err &x) { return fine(); }
#line 440 "file"
Out l_throwsInt(int x) { CAUGHT(RC_ASSERT_THROWS(throw x)); }
Out r_throwsInt(int x) { return fine(); }
#line 450 "file"
Out l_throwsCase(const std::string &x) { CAUGHT(RC_ASSERT_THROWS(throw CaseResult(T::Success, x))); }
Out r_throwsCase(const std::string &x) { return fine(); }
#line 460 "file"
Out l_as() { CAUGHT(RC_ASSERT_THROWS_AS(act(), Err)); }
Out r_as() { act(); return result(T::Failure, "file:460:\nRC_ASSERT_THROWS_AS(act(), Err)\n\nNo exception was thrown."); }
#line 470 "file"
Out l_asYes(const Err &x) { CAUGHT(RC_ASSERT_THROWS_AS(throw x, Err)); }
Out r_asYes(const Err &x) { return fine(); }
#line 480 "file"
Out l_asNo(int x) { CAUGHT(RC_ASSERT_THROWS_AS(throw x, Err)); }
Out r_asNo(int x) { return result(T::Failure, "file:480:\nRC_ASSERT_THROWS_AS(throw x, Err)\n\nThrown exception did not match Err."); }
#line 490 "file"
Out l_asBase() { CAUGHT(RC_ASSERT_THROWS_AS(throw std::runtime_error(""), std::exception)); }
Out r_asBase() { return fine(); }
A mkA(); B mkB(); E mkE();
#line 2000 "file"
Out l_once() { CAUGHT(RC_ASSERT(mkA() < mkB())); }
Out r_once() { const A a = mkA(); const B b = mkB(); if (a < b) return fine(); return result(T::Failure, "file:2000:\nRC_ASSERT(mkA() < mkB())\n\nExpands to:\n" + shown(a) + " < " + shown(b)); }
#line 2010 "file"
Out l_onceE() { CAUGHT(RC_PRE(mkE())); }
Out r_onceE() { const E e = mkE(); if (e) return fine(); return result(T::Discard, "file:2010:\nRC_PRE(mkE())\n\nExpands to:\n" + shown(e)); }
} // namespace lmac
