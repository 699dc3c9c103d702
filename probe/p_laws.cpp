// Probe translation unit: equations between combinators, as pairs of functions
// l_x / r_x.  Never linked and never run: both sides are interpreted abstractly
// and compared by value number.
#include <rapidcheck.h>
#include <rapidcheck/state.h>

namespace laws {
using namespace rc;

struct X { X(); };       // some value types, declared only
struct Y {};
struct Z {};
struct FXY { Y operator()(X) const; };
struct FYZ { Z operator()(Y) const; };
struct FXG { Gen<Y> operator()(X) const; };
struct SG { Gen<X> operator()(int) const; };
struct LG { Gen<X> operator()() const; };

// ---- generators
Shrinkable<X> l_resize(const Gen<X> &g, int n, const Random &r, int s) { return gen::resize(n, g)(r, s); }
Shrinkable<X> r_resize(const Gen<X> &g, int n, const Random &r, int s) { return g(r, n); }
Shrinkable<X> l_scale(const Gen<X> &g, double n, const Random &r, int s) { return gen::scale(n, g)(r, s); }
Shrinkable<X> r_scale(const Gen<X> &g, double n, const Random &r, int s) { return g(r, static_cast<int>(s * n)); }
Shrinkable<X> l_withSize(const SG &f, int n, const Random &r, int s) { return gen::withSize(f)(r, s); }
Shrinkable<X> r_withSize(const SG &f, int n, const Random &r, int s) { return f(s)(r, s); }
Shrinkable<X> l_lazy(const LG &f, int n, const Random &r, int s) { return gen::lazy(f)(r, s); }
Shrinkable<X> r_lazy(const LG &f, int n, const Random &r, int s) { return f()(r, s); }
X l_noShrink_v(const Gen<X> &g, int n, const Random &r, int s) { return gen::noShrink(g)(r, s).value(); }
X r_noShrink_v(const Gen<X> &g, int n, const Random &r, int s) { return g(r, s).value(); }
Maybe<Shrinkable<X>> l_noShrink_s(const Gen<X> &g, int n, const Random &r, int s) { return gen::noShrink(g)(r, s).shrinks().next(); }
Maybe<Shrinkable<X>> r_noShrink_s(const Gen<X> &g, int n, const Random &r, int s) { return Nothing; }
Y l_map_v(const Gen<X> &g, const FXY &f, const Random &r, int s) { return gen::map(g, f)(r, s).value(); }
Y r_map_v(const Gen<X> &g, const FXY &f, const Random &r, int s) { return f(g(r, s).value()); }
Maybe<Y> l_map_s(const Gen<X> &g, const FXY &f, const Random &r, int s) {
  auto q = gen::map(g, f)(r, s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  return m->value();
}
Maybe<Y> r_map_s(const Gen<X> &g, const FXY &f, const Random &r, int s) {
  auto q = g(r, s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  return f(m->value());
}
Y l_mapcat_v(const Gen<X> &g, const FXG &f, const Random &r, int s) { return gen::mapcat(g, f)(r, s).value(); }
Y r_mapcat_v(const Gen<X> &g, const FXG &f, const Random &r, int s) { Random r1(r); Random r2(r1.split()); return f(g(r1, s).value())(r2, s).value(); }
X l_join_v(const Gen<Gen<X>> &g, const FXG &f, const Random &r, int s) { return gen::join(g)(r, s).value(); }
X r_join_v(const Gen<Gen<X>> &g, const FXG &f, const Random &r, int s) { Random r1(r); Random r2(r1.split()); return g(r1, s).value()(r2, s).value(); }
struct FXYZ { Z operator()(X, Y) const; };
struct SX { Seq<X> operator()(X) const; };
struct Wrap { explicit Wrap(X); };
struct Pt { Pt(X, Y); X x; Y y; void setX(X); void setXY(X, Y); };
Z l_apply_v(const Gen<X> &g, const Gen<Y> &h, const FXYZ &f, const Random &r, int s) { return gen::apply(f, g, h)(r, s).value(); }
Z r_apply_v(const Gen<X> &g, const Gen<Y> &h, const FXYZ &f, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split()); return f(g(r1, s).value(), h(r2, s).value()); }
Wrap l_cast_v(const Gen<X> &g, const Random &r, int s) { return gen::cast<Wrap>(g)(r, s).value(); }
Wrap r_cast_v(const Gen<X> &g, const Random &r, int s) { return static_cast<Wrap>(g(r, s).value()); }
std::tuple<X, Y, Z> l_tuple_v(const Gen<X> &g, const Gen<Y> &h, const Gen<Z> &i, const Random &r, int s) { return gen::tuple(g, h, i)(r, s).value(); }
std::tuple<X, Y, Z> r_tuple_v(const Gen<X> &g, const Gen<Y> &h, const Gen<Z> &i, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split()); Random r3(q.split()); return std::make_tuple(g(r1, s).value(), h(r2, s).value(), i(r3, s).value()); }
std::pair<X, Y> l_pair_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return gen::pair(g, h)(r, s).value(); }
std::pair<X, Y> r_pair_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split()); return std::make_pair(g(r1, s).value(), h(r2, s).value()); }
X l_just_v(const X &x, const Random &r, int s) { return gen::just(x)(r, s).value(); }
X r_just_v(const X &x, const Random &r, int s) { return x; }
Maybe<Shrinkable<X>> l_just_s(const X &x, const Random &r, int s) { return gen::just(x)(r, s).shrinks().next(); }
Maybe<Shrinkable<X>> r_just_s(const X &x, const Random &r, int s) { return Nothing; }
X l_shrink_v(const Gen<X> &g, const SX &f, const Random &r, int s) { return gen::shrink(g, f)(r, s).value(); }
X r_shrink_v(const Gen<X> &g, const SX &f, const Random &r, int s) { return g(r, s).value(); }
Pt l_construct_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return gen::construct<Pt>(g, h)(r, s).value(); }
Pt r_construct_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split()); return Pt(g(r1, s).value(), h(r2, s).value()); }
Pt l_makeUnique_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return *gen::makeUnique<Pt>(g, h)(r, s).value(); }
Pt r_makeUnique_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split()); return Pt(g(r1, s).value(), h(r2, s).value()); }
Pt l_makeShared_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return *gen::makeShared<Pt>(g, h)(r, s).value(); }
Pt r_makeShared_v(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split()); return *std::make_shared<Pt>(g(r1, s).value(), h(r2, s).value()); }
Pt l_build_v(const Gen<Pt> &b, const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return gen::build<Pt>(b, gen::set(&Pt::x, g), gen::set(&Pt::y, h))(r, s).value(); }
Pt r_build_v(const Gen<Pt> &b, const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split()); Random r3(q.split()); Pt p = b(r1, s).value(); p.x = g(r2, s).value(); p.y = h(r3, s).value(); return p; }
Pt l_build2_v(const Gen<Pt> &b, const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return gen::build<Pt>(b, gen::set(&Pt::setX, g))(r, s).value(); }
Pt r_build2_v(const Gen<Pt> &b, const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split());Pt p = b(r1, s).value(); p.setX(g(r2, s).value()); return p; }
Pt l_build3_v(const Gen<Pt> &b, const Gen<std::tuple<X, Y>> &g, const Random &r, int s) { return gen::build<Pt>(b, gen::set(&Pt::setXY, g))(r, s).value(); }
Pt r_build3_v(const Gen<Pt> &b, const Gen<std::tuple<X, Y>> &g, const Random &r, int s) { Random q(r); Random r1(q.split()); Random r2(q.split());Pt p = b(r1, s).value(); std::tuple<X, Y> t = g(r2, s).value(); p.setXY(std::get<0>(t), std::get<1>(t)); return p; }
X l_elementOf_v(const std::vector<X> &c, const Random &r, int s) { return gen::elementOf(c)(r, s).value(); }
X r_elementOf_v(const std::vector<X> &c, const Random &r, int s) { if (c.end() - c.begin() == 0) throw GenerationFailure("empty"); return *(c.begin() + Random(r).next() % (c.end() - c.begin())); }
X l_oneOf_v(const Gen<X> &g, const Gen<X> &h, const Random &r, int s) { return gen::oneOf(g, h)(r, s).value(); }
X r_oneOf_v(const Gen<X> &g, const Gen<X> &h, const Random &r, int s) { Random q(r); std::vector<Gen<X>> v{g, h}; auto i = q.split().next() % v.size(); return v[i](q, s).value(); }
Maybe<X> l_maybe_v(const Gen<X> &g, const Random &r, int s) { return gen::maybe(g)(r, s).value(); }
Maybe<X> r_maybe_v(const Gen<X> &g, const Random &r, int s) { Random q(r); auto i = q.split().next() % (s + 1); if (i == 0) return Nothing; return g(q, s).value(); }
// ---- observing shrinks
template <typename T>
Maybe<Shrinkable<T>> shr(const Shrinkable<T> &s) { auto q = s.shrinks(); return q.next(); }
template <typename T>
Maybe<Shrinkable<T>> shr2(const Shrinkable<T> &s) { auto q = s.shrinks(); auto m = q.next(); if (!m) return Nothing; return q.next(); }

struct FXS { Shrinkable<Y> operator()(X) const; };
struct SeqF { Seq<Shrinkable<X>> operator()(Seq<Shrinkable<X>>) const; };
struct V0 { X operator()() const; };
struct S0 { Seq<Shrinkable<X>> operator()() const; };
struct SS { Seq<Shrinkable<X>> operator()(X) const; };

// ---- shrinkables
Y l_smap_v(const Shrinkable<X> &s, const FXY &f) { return shrinkable::map(s, f).value(); }
Y r_smap_v(const Shrinkable<X> &s, const FXY &f) { return f(s.value()); }
Maybe<Y> l_smap_s(const Shrinkable<X> &s, const FXY &f) { auto m = shr2(shrinkable::map(s, f)); if (!m) return Nothing; return m->value(); }
Maybe<Y> r_smap_s(const Shrinkable<X> &s, const FXY &f) { auto m = shr2(s); if (!m) return Nothing; return f(m->value()); }
Maybe<Y> l_smap_ss(const Shrinkable<X> &s, const FXY &f) { auto m = shr(shrinkable::map(s, f)); if (!m) return Nothing; auto k = shr(*m); if (!k) return Nothing; return k->value(); }
Maybe<Y> r_smap_ss(const Shrinkable<X> &s, const FXY &f) { auto m = shr(s); if (!m) return Nothing; auto k = shr(*m); if (!k) return Nothing; return f(k->value()); }
X l_smapShrinks_v(const Shrinkable<X> &s, const SeqF &f) { return shrinkable::mapShrinks(s, f).value(); }
X r_smapShrinks_v(const Shrinkable<X> &s, const SeqF &f) { return s.value(); }
Seq<Shrinkable<X>> l_smapShrinks_s(const Shrinkable<X> &s, const SeqF &f) { return shrinkable::mapShrinks(s, f).shrinks(); }
Seq<Shrinkable<X>> r_smapShrinks_s(const Shrinkable<X> &s, const SeqF &f) { return f(s.shrinks()); }
Y l_smapcat_v(const Shrinkable<X> &s, const FXS &f) { return shrinkable::mapcat(s, f).value(); }
Y r_smapcat_v(const Shrinkable<X> &s, const FXS &f) { return f(s.value()).value(); }
Maybe<Y> l_smapcat_s(const Shrinkable<X> &s, const FXS &f) { auto m = shr(shrinkable::mapcat(s, f)); if (!m) return Nothing; return m->value(); }
Maybe<Y> r_smapcat_s(const Shrinkable<X> &s, const FXS &f) { auto m = shr(s); if (m) return f(m->value()).value(); auto k = shr(f(s.value())); if (!k) return Nothing; return k->value(); }
Maybe<Y> l_smapcat_ss(const Shrinkable<X> &s, const FXS &f) { auto m = shr(shrinkable::mapcat(s, f)); if (!m) return Nothing; auto k = shr(*m); if (!k) return Nothing; return k->value(); }
Maybe<Y> r_smapcat_ss(const Shrinkable<X> &s, const FXS &f) {
  auto m = shr(s);
  if (m) {
    auto k = shr(*m);
    if (k) return f(k->value()).value();
    auto j = shr(f(m->value()));
    if (!j) return Nothing;
    return j->value();
  }
  auto k = shr(f(s.value()));
  if (!k) return Nothing;
  auto j = shr(*k);
  if (!j) return Nothing;
  return j->value();
}
std::pair<X, Y> l_spair_v(const Shrinkable<X> &s, const Shrinkable<Y> &t) { return shrinkable::pair(s, t).value(); }
std::pair<X, Y> r_spair_v(const Shrinkable<X> &s, const Shrinkable<Y> &t) { return std::make_pair(s.value(), t.value()); }
Maybe<std::pair<X, Y>> l_spair_s(const Shrinkable<X> &s, const Shrinkable<Y> &t) { auto m = shr(shrinkable::pair(s, t)); if (!m) return Nothing; return m->value(); }
Maybe<std::pair<X, Y>> r_spair_s(const Shrinkable<X> &s, const Shrinkable<Y> &t) { auto m = shr(s); if (m) return std::make_pair(m->value(), t.value()); auto k = shr(t); if (!k) return Nothing; return std::make_pair(s.value(), k->value()); }
Maybe<std::pair<X, Y>> l_spair_s2(const Shrinkable<X> &s, const Shrinkable<Y> &t) { auto m = shr2(shrinkable::pair(s, t)); if (!m) return Nothing; return m->value(); }
Maybe<std::pair<X, Y>> r_spair_s2(const Shrinkable<X> &s, const Shrinkable<Y> &t) {
  auto p = s.shrinks();
  auto q = t.shrinks();
  auto m = p.next();
  if (m) {
    auto n = p.next();
    if (n) return std::make_pair(n->value(), t.value());
    auto k = q.next();
    if (!k) return Nothing;
    return std::make_pair(s.value(), k->value());
  }
  if (!q.next()) return Nothing;
  auto k = q.next();
  if (!k) return Nothing;
  return std::make_pair(s.value(), k->value());
}
Maybe<std::pair<X, Y>> l_spair_ss(const Shrinkable<X> &s, const Shrinkable<Y> &t) { auto m = shr(shrinkable::pair(s, t)); if (!m) return Nothing; auto n = shr(*m); if (!n) return Nothing; return n->value(); }
Maybe<std::pair<X, Y>> r_spair_ss(const Shrinkable<X> &s, const Shrinkable<Y> &t) {
  auto m = shr(s);
  if (m) {
    auto n = shr(*m);
    if (n) return std::make_pair(n->value(), t.value());
    auto k = shr(t);
    if (!k) return Nothing;
    return std::make_pair(m->value(), k->value());
  }
  auto k = shr(t);
  if (!k) return Nothing;
  auto j = shr(*k);
  if (!j) return Nothing;
  return std::make_pair(s.value(), j->value());
}
X l_slambda_v(const V0 &v, const S0 &f) { return shrinkable::lambda(v, f).value(); }
X r_slambda_v(const V0 &v, const S0 &f) { return v(); }
Seq<Shrinkable<X>> l_slambda_s(const V0 &v, const S0 &f) { return shrinkable::lambda(v, f).shrinks(); }
Seq<Shrinkable<X>> r_slambda_s(const V0 &v, const S0 &f) { return f(); }
X l_sjust_v(const X &x, const Seq<Shrinkable<X>> &q) { return shrinkable::just(x, q).value(); }
X r_sjust_v(const X &x, const Seq<Shrinkable<X>> &q) { return x; }
Seq<Shrinkable<X>> l_sjust_s(const X &x, const Seq<Shrinkable<X>> &q) { return shrinkable::just(x, q).shrinks(); }
Seq<Shrinkable<X>> r_sjust_s(const X &x, const Seq<Shrinkable<X>> &q) { return q; }
Maybe<Shrinkable<X>> l_sjust1_s(const X &x) { return shr(shrinkable::just(x)); }
Maybe<Shrinkable<X>> r_sjust1_s(const X &x) { return Nothing; }
X l_sshrink_v(const V0 &v, const SS &f) { return shrinkable::shrink(v, f).value(); }
X r_sshrink_v(const V0 &v, const SS &f) { return v(); }
Seq<Shrinkable<X>> l_sshrink_s(const V0 &v, const SS &f) { return shrinkable::shrink(v, f).shrinks(); }
Seq<Shrinkable<X>> r_sshrink_s(const V0 &v, const SS &f) { return f(v()); }
X l_shrinkRecur_v(const X &x, const SX &f) { return shrinkable::shrinkRecur(x, f).value(); }
X r_shrinkRecur_v(const X &x, const SX &f) { return x; }
Maybe<X> l_shrinkRecur_s(const X &x, const SX &f) { auto m = shr2(shrinkable::shrinkRecur(x, f)); if (!m) return Nothing; return m->value(); }
Maybe<X> r_shrinkRecur_s(const X &x, const SX &f) { auto q = f(x); auto m = q.next(); if (!m) return Nothing; return q.next(); }
Maybe<X> l_shrinkRecur_ss(const X &x, const SX &f) { auto m = shr(shrinkable::shrinkRecur(x, f)); if (!m) return Nothing; auto k = shr(*m); if (!k) return Nothing; return k->value(); }
Maybe<X> r_shrinkRecur_ss(const X &x, const SX &f) { auto q = f(x); auto m = q.next(); if (!m) return Nothing; auto p = f(*m); return p.next(); }
X l_postShrink_v(const Shrinkable<X> &s, const SX &f) { return shrinkable::postShrink(s, f).value(); }
X r_postShrink_v(const Shrinkable<X> &s, const SX &f) { return s.value(); }
Maybe<X> l_postShrink_s(const Shrinkable<X> &s, const SX &f) { auto m = shr(shrinkable::postShrink(s, f)); if (!m) return Nothing; return m->value(); }
Maybe<X> r_postShrink_s(const Shrinkable<X> &s, const SX &f) { auto m = shr(s); if (m) return m->value(); return f(s.value()).next(); }
Maybe<X> l_immediate(const Shrinkable<X> &s) { return shrinkable::immediateShrinks(s).next(); }
Maybe<X> r_immediate(const Shrinkable<X> &s) { auto m = shr(s); if (!m) return Nothing; return m->value(); }

// ---- shrinks of generators
Maybe<std::tuple<X, Y>> l_tuple_s(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { auto m = shr(gen::tuple(g, h)(r, s)); if (!m) return Nothing; return m->value(); }
Maybe<std::tuple<X, Y>> r_tuple_s(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) {
  Random q(r); Random r1(q.split()); Random r2(q.split());
  auto a = g(r1, s); auto b = h(r2, s);
  auto m = shr(a);
  if (m) return std::make_tuple(m->value(), b.value());
  auto k = shr(b);
  if (k) return std::make_tuple(a.value(), k->value());
  return Nothing;
}
Maybe<std::tuple<X, Y>> l_tuple_s2(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { auto m = shr2(gen::tuple(g, h)(r, s)); if (!m) return Nothing; return m->value(); }
Maybe<std::tuple<X, Y>> r_tuple_s2(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) {
  Random q(r); Random r1(q.split()); Random r2(q.split());
  auto a = g(r1, s); auto b = h(r2, s);
  auto p = a.shrinks();
  auto t = b.shrinks();
  auto m = p.next();
  if (m) {
    auto n = p.next();
    if (n) return std::make_tuple(n->value(), b.value());
    auto k = t.next();
    if (k) return std::make_tuple(a.value(), k->value());
    return Nothing;
  }
  if (!t.next()) return Nothing;
  auto k = t.next();
  if (k) return std::make_tuple(a.value(), k->value());
  return Nothing;
}
Maybe<std::tuple<X, Y>> l_tuple_ss(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { auto m = shr(gen::tuple(g, h)(r, s)); if (!m) return Nothing; auto n = shr(*m); if (!n) return Nothing; return n->value(); }
Maybe<std::tuple<X, Y>> r_tuple_ss(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) {
  Random q(r); Random r1(q.split()); Random r2(q.split());
  auto a = g(r1, s); auto b = h(r2, s);
  auto m = shr(a);
  if (m) {
    auto n = shr(*m);
    if (n) return std::make_tuple(n->value(), b.value());
    auto k = shr(b);
    if (k) return std::make_tuple(m->value(), k->value());
    return Nothing;
  }
  auto k = shr(b);
  if (!k) return Nothing;
  auto n = shr(*k);
  if (n) return std::make_tuple(a.value(), n->value());
  return Nothing;
}
Maybe<Y> l_mapcat_s(const Gen<X> &g, const FXG &f, const Random &r, int s) { auto m = shr(gen::mapcat(g, f)(r, s)); if (!m) return Nothing; return m->value(); }
Maybe<Y> r_mapcat_s(const Gen<X> &g, const FXG &f, const Random &r, int s) {
  Random r1(r); Random r2(r1.split());
  auto a = g(r1, s);
  auto m = shr(a);
  if (m) return f(m->value())(r2, s).value();
  auto k = shr(f(a.value())(r2, s));
  if (!k) return Nothing;
  return k->value();
}
Maybe<X> l_join_s(const Gen<Gen<X>> &g, const Random &r, int s) { auto m = shr(gen::join(g)(r, s)); if (!m) return Nothing; return m->value(); }
Maybe<X> r_join_s(const Gen<Gen<X>> &g, const Random &r, int s) {
  Random r1(r); Random r2(r1.split());
  auto a = g(r1, s);
  auto m = shr(a);
  if (m) return m->value()(r2, s).value();
  auto k = shr(a.value()(r2, s));
  if (!k) return Nothing;
  return k->value();
}
Maybe<Maybe<X>> l_maybe_s(const Gen<X> &g, const Random &r, int s) { auto m = shr(gen::maybe(g)(r, s)); if (!m) return Nothing; return m->value(); }
Maybe<Maybe<X>> r_maybe_s(const Gen<X> &g, const Random &r, int s) { Random q(r); auto i = q.split().next() % (s + 1); if (i == 0) return Nothing; return Maybe<X>(); }
Maybe<Maybe<X>> l_maybe_s2(const Gen<X> &g, const Random &r, int s) { auto m = shr2(gen::maybe(g)(r, s)); if (!m) return Nothing; return m->value(); }
Maybe<Maybe<X>> r_maybe_s2(const Gen<X> &g, const Random &r, int s) { Random q(r); auto i = q.split().next() % (s + 1); if (i == 0) return Nothing; auto m = shr(g(q, s)); if (!m) return Nothing; return Maybe<X>(m->value()); }
Maybe<Maybe<X>> l_maybe_s2s(const Gen<X> &g, const Random &r, int s) { auto m = shr2(gen::maybe(g)(r, s)); if (!m) return Nothing; auto k = shr(*m); if (!k) return Nothing; return k->value(); }
Maybe<Maybe<X>> r_maybe_s2s(const Gen<X> &g, const Random &r, int s) { Random q(r); auto i = q.split().next() % (s + 1); if (i == 0) return Nothing; auto m = shr(g(q, s)); if (!m) return Nothing; return Maybe<X>(); }
Maybe<X> l_shrink_s(const Gen<X> &g, const SX &f, const Random &r, int s) { auto m = shr(gen::shrink(g, f)(r, s)); if (!m) return Nothing; return m->value(); }
Maybe<X> r_shrink_s(const Gen<X> &g, const SX &f, const Random &r, int s) { auto a = g(r, s); auto m = shr(a); if (m) return m->value(); return f(a.value()).next(); }
Shrinkable<X> l_oneOf(const Gen<X> &g, const Gen<X> &h, const Random &r, int s) { return gen::oneOf(g, h)(r, s); }
Shrinkable<X> r_oneOf(const Gen<X> &g, const Gen<X> &h, const Random &r, int s) { Random q(r); std::vector<Gen<X>> v{g, h}; auto i = q.split().next() % v.size(); return v[i](q, s); }
Maybe<Shrinkable<X>> l_elementOf_s(const std::vector<X> &c, const Random &r, int s) { return shr(gen::elementOf(c)(r, s)); }
Maybe<Shrinkable<X>> r_elementOf_s(const std::vector<X> &c, const Random &r, int s) { return Nothing; }
X l_element_v(const X &a, const X &b, const Random &r, int s) { return gen::element(a, b)(r, s).value(); }
X r_element_v(const X &a, const X &b, const Random &r, int s) { std::vector<X> v{a, b}; return v[Random(r).next() % v.size()]; }
X l_failing_v(const Random &r, int s) { return gen::elementOf(std::vector<X>())(r, s).value(); }
X r_failing_v(const Random &r, int s) { throw GenerationFailure("empty"); }
} // namespace laws

// ---- sequences.  again(...): the loop goes on with this state; fin(...): the
// state left behind for the next call.
namespace laws {
template <typename... Ts> void again(const Ts &...);
template <typename... Ts> void fin(const Ts &...);
struct PX { bool operator()(const X &) const; };
struct FSY { Seq<Y> operator()(X) const; };
struct FMY { Maybe<Y> operator()(X) const; };
struct FXX { X operator()(X) const; };
struct CX { void operator()(X) const; };
bool operator==(const X &, const X &);
typedef Maybe<X> MX;
typedef Maybe<Y> MY;
template <typename T>
Maybe<T> nth2(Seq<T> s) { if (!s.next()) return Nothing; return s.next(); }
template <typename T>
Maybe<T> nth3(Seq<T> s) { if (!s.next()) return Nothing; if (!s.next()) return Nothing; return s.next(); }
template <typename T>
Maybe<T> afterEnd(Seq<T> s) { if (s.next()) return Nothing; return s.next(); }

MX l_qtake(const Seq<X> &q, std::size_t n) { return seq::take(n, q).next(); }
MX r_qtake(const Seq<X> &q, std::size_t n) { if (n == 0) return Nothing; Seq<X> s(q); return s.next(); }
MX l_qtake1(const Seq<X> &q) { return nth2(seq::take(1, q)); }
MX r_qtake1(const Seq<X> &q) { return Nothing; }
MX l_qtake2(const Seq<X> &q) { return nth2(seq::take(2, q)); }
MX r_qtake2(const Seq<X> &q) { return nth2(q); }
MX l_qtake3(const Seq<X> &q) { return nth3(seq::take(2, q)); }
MX r_qtake3(const Seq<X> &q) { return Nothing; }
MX l_qdrop(const Seq<X> &q, std::size_t n) { return seq::drop(n, q).next(); }
MX r_qdrop(const Seq<X> &q, std::size_t n) { Seq<X> s(q); if (n == 0) return s.next(); if (!s.next()) return Nothing; again(s, n - 1); return Nothing; }
MX l_qdrop_n(const Seq<X> &q, std::size_t n) { auto s = seq::drop(n, q); auto m = s.next(); if (!m) return s.next(); return s.next(); }
MX r_qdrop_n(const Seq<X> &q, std::size_t n) { Seq<X> s(q); if (n == 0) { auto m = s.next(); return s.next(); } if (!s.next()) return Nothing; again(s, n - 1); return Nothing; }
MX l_qtakeWhile(const Seq<X> &q, const PX &p) { return seq::takeWhile(q, p).next(); }
MX r_qtakeWhile(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) return Nothing; if (p(*m)) return m; return Nothing; }
MX l_qtakeWhile2(const Seq<X> &q, const PX &p) { auto s = seq::takeWhile(q, p); s.next(); return s.next(); }
MX r_qtakeWhile2(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) return Nothing; if (!p(*m)) return Nothing; auto n = s.next(); if (!n) return Nothing; if (!p(*n)) return Nothing; return n; }
MX l_qdropWhile(const Seq<X> &q, const PX &p) { return seq::dropWhile(q, p).next(); }
MX r_qdropWhile(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) return Nothing; if (!p(*m)) return m; again(s); return Nothing; }
MX l_qdropWhile2(const Seq<X> &q, const PX &p) { auto s = seq::dropWhile(q, p); s.next(); return s.next(); }
MX r_qdropWhile2(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) return Nothing; if (!p(*m)) return s.next(); again(s); return Nothing; }
MX l_qdropWhile3(const Seq<X> &q, const PX &p) { auto s = seq::dropWhile(q, p); s.next(); if (!s.next()) return Nothing; return s.next(); }
MX r_qdropWhile3(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) return Nothing; if (!p(*m)) { if (!s.next()) return Nothing; return s.next(); } again(s); return Nothing; }
MY l_qmap(const Seq<X> &q, const FXY &f) { return seq::map(q, f).next(); }
MY r_qmap(const Seq<X> &q, const FXY &f) { Seq<X> s(q); auto m = s.next(); if (!m) return Nothing; return f(*m); }
MY l_qmap2(const Seq<X> &q, const FXY &f) { return nth2(seq::map(q, f)); }
MY r_qmap2(const Seq<X> &q, const FXY &f) { auto m = nth2(q); if (!m) return Nothing; return f(*m); }
MY l_qmap0(const Seq<X> &q, const FXY &f) { return afterEnd(seq::map(q, f)); }
MY r_qmap0(const Seq<X> &q, const FXY &f) { return Nothing; }
Maybe<Z> l_qzipWith(const Seq<X> &q, const Seq<Y> &t, const FXYZ &f) { return seq::zipWith(f, q, t).next(); }
Maybe<Z> r_qzipWith(const Seq<X> &q, const Seq<Y> &t, const FXYZ &f) { Seq<X> s(q); Seq<Y> u(t); auto m = s.next(); if (!m) return Nothing; auto n = u.next(); if (!n) return Nothing; return f(*m, *n); }
Maybe<Z> l_qzipWith2(const Seq<X> &q, const Seq<Y> &t, const FXYZ &f) { return nth2(seq::zipWith(f, q, t)); }
Maybe<Z> r_qzipWith2(const Seq<X> &q, const Seq<Y> &t, const FXYZ &f) { auto m = nth2(q); auto n = nth2(t); if (!m) return Nothing; if (!n) return Nothing; return f(*m, *n); }
Maybe<Z> l_qzipWith0(const Seq<X> &q, const Seq<Y> &t, const FXYZ &f) { return afterEnd(seq::zipWith(f, q, t)); }
Maybe<Z> r_qzipWith0(const Seq<X> &q, const Seq<Y> &t, const FXYZ &f) { return Nothing; }
MX l_qfilter(const Seq<X> &q, const PX &p) { return seq::filter(q, p).next(); }
MX r_qfilter(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) { fin(s); return Nothing; } if (p(*m)) { fin(s); return m; } again(s); return Nothing; }
MX l_qjoin(const Seq<Seq<X>> &q) { return seq::join(q).next(); }
MX r_qjoin(const Seq<Seq<X>> &q, const Seq<X> &cur) { Seq<Seq<X>> s(q); Seq<X> c(cur); auto m = c.next(); if (m) { fin(s, c); return m; } auto n = s.next(); if (!n) { fin(s, c); return Nothing; } again(s, *n); return Nothing; }
MY l_qmapcat(const Seq<X> &q, const FSY &f) { return seq::mapcat(q, f).next(); }
MY r_qmapcat(const Seq<X> &q, const FSY &f, const Seq<Y> &cur) { Seq<X> s(q); Seq<Y> c(cur); auto m = c.next(); if (m) { fin(s, c); return m; } auto n = s.next(); if (!n) { fin(s, c); return Nothing; } again(s, f(*n)); return Nothing; }
MY l_qmapMaybe(const Seq<X> &q, const FMY &f) { return seq::mapMaybe(q, f).next(); }
MY r_qmapMaybe(const Seq<X> &q, const FMY &f) { Seq<X> s(q); auto m = s.next(); if (!m) { fin(s); return Nothing; } auto n = f(*m); if (n) { fin(s); return n; } again(s); return Nothing; }
MX l_qconcat(const Seq<X> &q, const Seq<X> &t) { return seq::concat(q, t).next(); }
MX r_qconcat(const Seq<X> &q, const Seq<X> &t) { Seq<X> s(q), u(t); auto m = s.next(); if (m) return m; return u.next(); }
MX l_qconcat2(const Seq<X> &q, const Seq<X> &t) { return nth2(seq::concat(q, t)); }
MX r_qconcat2(const Seq<X> &q, const Seq<X> &t) { Seq<X> s(q), u(t); auto m = s.next(); if (m) { auto n = s.next(); if (n) return n; return u.next(); } m = u.next(); if (!m) return Nothing; return u.next(); }
MX l_qconcat3(const Seq<X> &q, const Seq<X> &t, const Seq<X> &v) { return seq::concat(q, t, v).next(); }
MX r_qconcat3(const Seq<X> &q, const Seq<X> &t, const Seq<X> &v) { Seq<X> s(q), u(t), w(v); auto m = s.next(); if (m) return m; m = u.next(); if (m) return m; return w.next(); }
MX l_qcycle(const Seq<X> &q) { return seq::cycle(q).next(); }
MX r_qcycle(const Seq<X> &q, const Seq<X> &cur) { Seq<X> c(cur); auto m = c.next(); if (m) { fin(c); return m; } again(q); return Nothing; }
Maybe<Wrap> l_qcast(const Seq<X> &q) { return seq::cast<Wrap>(q).next(); }
Maybe<Wrap> r_qcast(const Seq<X> &q) { Seq<X> s(q); auto m = s.next(); if (!m) return Nothing; return static_cast<Wrap>(*m); }
Maybe<Wrap> l_qcast2(const Seq<X> &q) { return nth2(seq::cast<Wrap>(q)); }
Maybe<Wrap> r_qcast2(const Seq<X> &q) { auto m = nth2(q); if (!m) return Nothing; return static_cast<Wrap>(*m); }
MX l_qrepeat(const X &x) { return nth3(seq::repeat(x)); }
MX r_qrepeat(const X &x) { return x; }
MX l_qjust(const X &x, const X &y) { return seq::just(x, y).next(); }
MX r_qjust(const X &x, const X &y) { return x; }
MX l_qjust2(const X &x, const X &y) { return nth2(seq::just(x, y)); }
MX r_qjust2(const X &x, const X &y) { return y; }
MX l_qjust3(const X &x, const X &y) { return nth3(seq::just(x, y)); }
MX r_qjust3(const X &x, const X &y) { return Nothing; }
MX l_qiterate(const X &x, const FXX &f) { return seq::iterate(x, f).next(); }
MX r_qiterate(const X &x, const FXX &f) { return x; }
MX l_qiterate2(const X &x, const FXX &f) { return nth2(seq::iterate(x, f)); }
MX r_qiterate2(const X &x, const FXX &f) { return f(x); }
MX l_qiterate3(const X &x, const FXX &f) { return nth3(seq::iterate(x, f)); }
MX r_qiterate3(const X &x, const FXX &f) { return f(f(x)); }
Maybe<int> l_qrange(int a, int b) { return seq::range(a, b).next(); }
Maybe<int> r_qrange(int a, int b) { if (a == b) return Nothing; return a; }
Maybe<int> l_qrange2(int a, int b) { return nth2(seq::range(a, b)); }
Maybe<int> r_qrange2(int a, int b) { if (a == b) return Nothing; if (a < b) { if (a + 1 == b) return Nothing; return a + 1; } if (a - 1 == b) return Nothing; return a - 1; }
MX l_qfrom(const std::vector<X> &c) { return seq::fromContainer(c).next(); }
MX r_qfrom(const std::vector<X> &c) { if (c.empty()) return Nothing; return c[0]; }
std::size_t l_qlength(const Seq<X> &q) { return seq::length(q); }
std::size_t r_qlength(const Seq<X> &q, std::size_t n) { Seq<X> s(q); if (!s.next()) return n; again(s, n + 1); return n; }
void l_qforEach(const Seq<X> &q, const CX &f) { seq::forEach(q, f); }
void r_qforEach(const Seq<X> &q, const CX &f) { Seq<X> s(q); auto m = s.next(); if (!m) return; f(*m); again(s); }
MX l_qlast(const Seq<X> &q) { return seq::last(q); }
MX r_qlast(const Seq<X> &q, const MX &prev) { Seq<X> s(q); auto m = s.next(); if (!m) return prev; again(s, m); return Nothing; }
MX r_qlast_b(const Seq<X> &q, const MX &prev, const Seq<X> &t) { Seq<X> p(q); if (!p.next()) return Nothing; Seq<X> s(t); auto m = s.next(); if (!m) return prev; again(m, s); return Nothing; }
bool l_qcontains(const Seq<X> &q, const X &x) { return seq::contains(q, x); }
bool r_qcontains(const Seq<X> &q, const X &x) { Seq<X> s(q); auto m = s.next(); if (!m) return false; if (*m == x) return true; again(s); return false; }
bool l_qall(const Seq<X> &q, const PX &p) { return seq::all(q, p); }
bool r_qall(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) return true; if (!p(*m)) return false; again(s); return false; }
bool l_qany(const Seq<X> &q, const PX &p) { return seq::any(q, p); }
bool r_qany(const Seq<X> &q, const PX &p) { Seq<X> s(q); auto m = s.next(); if (!m) return false; if (p(*m)) return true; again(s); return false; }
MX l_qat(const Seq<X> &q, std::size_t n) { return seq::at(q, n); }
MX r_qat(const Seq<X> &q, std::size_t n, std::size_t i) { Seq<X> s(q); if (!(i < n)) return s.next(); if (!s.next()) return Nothing; again(s, i + 1); return Nothing; }
MX r_qat_b(const Seq<X> &q, std::size_t n) { Seq<X> s(q); if (n == 0) return s.next(); if (!s.next()) return Nothing; again(s, n - 1); return Nothing; }
MX l_qiter(const Seq<X> &q) { auto it = begin(q); if (it == end(q)) return Nothing; ++it; if (it == end(q)) return Nothing; return *it; }
MX r_qiter(const Seq<X> &q) { return nth2(q); }
MX l_qiter1(const Seq<X> &q) { auto it = begin(q); if (it != end(q)) { auto p = it++; return *p; } return Nothing; }
MX r_qiter1(const Seq<X> &q) { Seq<X> s(q); return s.next(); }
bool l_qequal(const Seq<X> &q, const Seq<X> &t) { return q == t; }
bool r_qequal(const Seq<X> &q, const Seq<X> &t) { Seq<X> s(q), u(t); auto m = s.next(); auto n = u.next(); if (!m) { if (!n) return true; return false; } if (!n) return false; if (!(*m == *n)) return false; again(s, u); return true; }
} // namespace laws
// ---- filtering, walking and minimising shrinkables
namespace laws {
struct PS { bool operator()(const Shrinkable<X> &) const; };
MX l_sfilter_v(const Shrinkable<X> &s, const PX &p) { auto f = shrinkable::filter(s, p); if (!f) return Nothing; return f->value(); }
MX r_sfilter_v(const Shrinkable<X> &s, const PX &p) { if (!p(s.value())) return Nothing; return s.value(); }
MX l_sfilter_s(const Shrinkable<X> &s, const PX &p) { auto f = shrinkable::filter(s, p); if (!f) return Nothing; auto m = shr(*f); if (!m) return Nothing; return m->value(); }
MX r_sfilter_s(const Shrinkable<X> &s, const PX &p, const Seq<Shrinkable<X>> &t) { if (!p(s.value())) return Nothing; Seq<Shrinkable<X>> q(t); auto m = q.next(); if (!m) return Nothing; if (p(m->value())) return m->value(); again(q); return Nothing; }
Maybe<Shrinkable<X>> l_sfilter_r(const Shrinkable<X> &s, const PX &p) { auto f = shrinkable::filter(s, p); if (!f) return Nothing; return shr(*f); }
Maybe<Shrinkable<X>> r_sfilter_r(const Shrinkable<X> &s, const PX &p, const Seq<Shrinkable<X>> &t) { if (!p(s.value())) return Nothing; Seq<Shrinkable<X>> q(t); auto m = q.next(); if (!m) return Nothing; auto f = shrinkable::filter(*m, p); if (f) return f; again(q); return Nothing; }
bool l_sall(const Shrinkable<X> &s, const PS &p) { return shrinkable::all(s, p); }
bool r_sall(const Shrinkable<X> &s, const PS &p, const Seq<Shrinkable<X>> &t) { if (!p(s)) return false; Seq<Shrinkable<X>> q(t); auto m = q.next(); if (!m) return true; if (!shrinkable::all(*m, p)) return false; again(q); return true; }
std::pair<X, std::size_t> l_sfindLocalMin(const Shrinkable<X> &s, const PX &p) { return shrinkable::findLocalMin(s, p); }
std::pair<X, std::size_t> r_sfindLocalMin(const Shrinkable<X> &s, const PX &p, const Seq<Shrinkable<X>> &t, const X &best, std::size_t n) {
  Seq<Shrinkable<X>> q(t);
  auto m = q.next();
  if (!m) return std::make_pair(best, n);
  X v = m->value();
  if (p(v)) again(m->shrinks(), v, n + 1); else again(q);
  return std::make_pair(best, n);
}
Maybe<Shrinkable<X>> l_swalk0(const Shrinkable<X> &s) { return shrinkable::walkPath(s, std::vector<std::size_t>()); }
Maybe<Shrinkable<X>> r_swalk0(const Shrinkable<X> &s) { return s; }
Maybe<Shrinkable<X>> l_swalk1(const Shrinkable<X> &s) { return shrinkable::walkPath(s, std::vector<std::size_t>{1}); }
Maybe<Shrinkable<X>> r_swalk1(const Shrinkable<X> &s) { return shr2(s); }
Maybe<Shrinkable<X>> l_swalk2(const Shrinkable<X> &s) { return shrinkable::walkPath(s, std::vector<std::size_t>{0, 1}); }
Maybe<Shrinkable<X>> r_swalk2(const Shrinkable<X> &s) { auto m = shr(s); if (!m) return Nothing; return shr2(*m); }
// ---- shrinking the elements of a container
struct SXc { Seq<X> operator()(const X &) const; };
Maybe<std::vector<X>> l_eachElement(const std::vector<X> &c, const SXc &f) { return shrink::eachElement(c, f).next(); }
Maybe<std::vector<X>> r_eachElement(const std::vector<X> &c, const SXc &f, const Seq<X> &cur, std::size_t i) {
  Seq<X> q(cur);
  auto m = q.next();
  if (m) { std::vector<X> v = c; v[i - 1] = *m; fin(q, i); return v; }
  if (i >= c.size()) { fin(q, i); return Nothing; }
  again(f(c[i]), i + 1);
  return Nothing;
}
} // namespace laws

// ---- arbitrary values are wired to the generators of their parts
namespace laws { Gen<X> arbX(); Gen<Y> arbY(); }
namespace std {
template <> struct hash<laws::X> { size_t operator()(const laws::X &) const; };
}
namespace rc {
template <> struct Arbitrary<laws::X> { static Gen<laws::X> arbitrary() { return laws::arbX(); } };
template <> struct Arbitrary<laws::Y> { static Gen<laws::Y> arbitrary() { return laws::arbY(); } };
}
namespace laws {
X l_arb(const Random &r, int s) { return gen::arbitrary<X>()(r, s).value(); }
X r_arb(const Random &r, int s) { return arbX()(r, s).value(); }
MX l_arbMaybe(const Random &r, int s) { return gen::arbitrary<Maybe<X>>()(r, s).value(); }
MX r_arbMaybe(const Random &r, int s) { return gen::maybe(arbX())(r, s).value(); }
std::pair<X, Y> l_arbPair(const Random &r, int s) { return gen::arbitrary<std::pair<X, Y>>()(r, s).value(); }
std::pair<X, Y> r_arbPair(const Random &r, int s) { return gen::pair(arbX(), arbY())(r, s).value(); }
std::tuple<X, Y> l_arbTuple(const Random &r, int s) { return gen::arbitrary<std::tuple<X, Y>>()(r, s).value(); }
std::tuple<X, Y> r_arbTuple(const Random &r, int s) { return gen::tuple(arbX(), arbY())(r, s).value(); }
Y l_arbMap(const FXY &f, const Random &r, int s) { return gen::map<X>(f)(r, s).value(); }
Y r_arbMap(const FXY &f, const Random &r, int s) { return f(arbX()(r, s).value()); }
Pt l_arbConstruct(const Random &r, int s) { return gen::construct<Pt, X, Y>()(r, s).value(); }
Pt r_arbConstruct(const Random &r, int s) { return gen::construct<Pt>(arbX(), arbY())(r, s).value(); }
Pt l_arbSet(const Gen<Pt> &b, const Random &r, int s) { return gen::build<Pt>(b, gen::set(&Pt::x))(r, s).value(); }
Pt r_arbSet(const Gen<Pt> &b, const Random &r, int s) { return gen::build<Pt>(b, gen::set(&Pt::x, arbX()))(r, s).value(); }
} // namespace laws

// ---- filtered generators
namespace laws {
void assume(bool);       // paths on which this is false do not count
bool choice(int);       // either way: some choice must agree
struct N { explicit N(int); bool empty() const; };
bool operator>(const N &, const N &); bool operator<(const N &, const N &); bool operator>=(const N &, const N &);
bool operator!=(const N &, const N &); bool operator==(const N &, const N &);
Gen<N> arbN();
struct PN { bool operator()(const N &) const; };
}
namespace rc { template <> struct Arbitrary<laws::N> { static Gen<laws::N> arbitrary() { return laws::arbN(); } }; }
namespace laws {
Shrinkable<X> l_suchThat(const Gen<X> &g, const PX &p, const Random &r, int s) { return gen::suchThat(g, p)(r, s); }
Shrinkable<X> r_suchThat(const Gen<X> &g, const PX &p, const Random &r, int s) {
  if (choice(1)) throw GenerationFailure("");
  Random q(r);
  auto x = g(q.split(), s);
  auto f = shrinkable::filter(x, p);
  if (f) return *f;
  if (choice(2)) throw GenerationFailure("");
  again(q, s + 1);
  return x;
}
N l_arbSuchThat(const PN &p, const Random &r, int s) { return gen::suchThat<N>(p)(r, s).value(); }
N r_arbSuchThat(const PN &p, const Random &r, int s) { return gen::suchThat(arbN(), p)(r, s).value(); }
N l_nonEmpty(const Gen<N> &g, const Random &r, int s) { return gen::nonEmpty(g)(r, s).value(); }
N r_nonEmpty(const Gen<N> &g, const Random &r, int s) { return gen::suchThat(g, [](const N &x) { return !x.empty(); })(r, s).value(); }
N l_arbNonEmpty(const Random &r, int s) { return gen::nonEmpty<N>()(r, s).value(); }
N r_arbNonEmpty(const Random &r, int s) { return gen::suchThat(arbN(), [](const N &x) { return !x.empty(); })(r, s).value(); }
N l_distinct(const Gen<N> &g, const N &n, const Random &r, int s) { return gen::distinctFrom(g, n)(r, s).value(); }
N r_distinct(const Gen<N> &g, const N &n, const Random &r, int s) { return gen::suchThat(g, [n](const N &x) { return !(x == n); })(r, s).value(); }
N l_arbDistinct(const N &n, const Random &r, int s) { return gen::distinctFrom(n)(r, s).value(); }
N r_arbDistinct(const N &n, const Random &r, int s) { return gen::suchThat(arbN(), [n](const N &x) { return !(x == n); })(r, s).value(); }
N l_nonZero(const Random &r, int s) { return gen::nonZero<N>()(r, s).value(); }
N r_nonZero(const Random &r, int s) { return gen::suchThat(arbN(), [](const N &x) { return x != N(0); })(r, s).value(); }
N l_positive(const Random &r, int s) { return gen::positive<N>()(r, s).value(); }
N r_positive(const Random &r, int s) { return gen::suchThat(arbN(), [](const N &x) { return x > N(0); })(r, s).value(); }
N l_negative(const Random &r, int s) { return gen::negative<N>()(r, s).value(); }
N r_negative(const Random &r, int s) { return gen::suchThat(arbN(), [](const N &x) { return x < N(0); })(r, s).value(); }
N l_nonNegative(const Random &r, int s) { return gen::nonNegative<N>()(r, s).value(); }
N r_nonNegative(const Random &r, int s) { return gen::suchThat(arbN(), [](const N &x) { return x >= N(0); })(r, s).value(); }
// ---- containers
using SV = std::vector<Shrinkable<X>>;
SV l_genN(const Gen<X> &g, const PS &p, const Random &r, int s, std::size_t n) { return gen::detail::generateShrinkables(r, s, n, g, p); }
SV r_genN(const Gen<X> &g, const PS &p, const Random &r, int s, std::size_t n, const SV &acc) {
  SV a(acc);
  if (!(a.size() < n)) return a;
  Random q(r);
  auto x = g(q.split(), s);
  if (p(x)) { a.push_back(x); again(q, a); return a; }
  if (choice(1)) throw GenerationFailure("");
  again(q, s + 1);
  return a;
}
struct Cont { template <typename It> Cont(It, It); Cont(); };
struct Strat {
  SV generateElements(const Random &, int, std::size_t, const Gen<X> &) const;
  Seq<SV> shrinkElements(const SV &) const;
};
using Helper = gen::detail::ContainerHelper<Cont, Strat>;
// what a container holds is told by toContainer, see conv
Cont conv(const SV &v) { return gen::detail::toContainer<Cont, X>(v); }
Cont l_contGen_v(const Strat &st, const Gen<X> &g, const Random &r, int s) { return Helper(Strat(st)).generate(r, s, g).value(); }
Cont r_contGen_v(const Strat &st, const Gen<X> &g, const Random &r, int s) { Random q(r); std::size_t n = q.split().next() % (s + 1); return conv(st.generateElements(q, s, n, g)); }
Maybe<Cont> l_contGen_s(const Strat &st, const Gen<X> &g, const Random &r, int s) { auto m = shr(Helper(Strat(st)).generate(r, s, g)); if (!m) return Nothing; return m->value(); }
Maybe<Cont> r_contGen_s(const Strat &st, const Gen<X> &g, const Random &r, int s) {
  Random q(r); std::size_t n = q.split().next() % (s + 1);
  auto e = st.generateElements(q, s, n, g);
  auto c = seq::concat(shrink::removeChunks(e), st.shrinkElements(e)); auto m = c.next();
  if (!m) return Nothing;
  return conv(*m);
}
Cont l_contN_v(const Strat &st, const Gen<X> &g, const Random &r, int s, std::size_t n) { return Helper(Strat(st)).generate(n, r, s, g).value(); }
Cont r_contN_v(const Strat &st, const Gen<X> &g, const Random &r, int s, std::size_t n) { return conv(st.generateElements(r, s, n, g)); }
Maybe<Cont> l_contN_s(const Strat &st, const Gen<X> &g, const Random &r, int s, std::size_t n) { auto m = shr(Helper(Strat(st)).generate(n, r, s, g)); if (!m) return Nothing; return m->value(); }
Maybe<Cont> r_contN_s(const Strat &st, const Gen<X> &g, const Random &r, int s, std::size_t n) {
  auto c = st.shrinkElements(st.generateElements(r, s, n, g)); auto m = c.next();
  if (!m) return Nothing;
  return conv(*m);
}
Maybe<Cont> l_contN_ss(const Strat &st, const Gen<X> &g, const Random &r, int s, std::size_t n) { auto m = shr(Helper(Strat(st)).generate(n, r, s, g)); if (!m) return Nothing; auto k = shr(*m); if (!k) return Nothing; return k->value(); }
Maybe<Cont> r_contN_ss(const Strat &st, const Gen<X> &g, const Random &r, int s, std::size_t n) {
  auto c = st.shrinkElements(st.generateElements(r, s, n, g)); auto m = c.next();
  if (!m) return Nothing;
  auto d = st.shrinkElements(*m); auto k = d.next();
  if (!k) return Nothing;
  return conv(*k);
}
// the elements are read through ShrinkValueIterator
X l_shrinkIter(const SV &v, std::size_t n) { auto it = gen::detail::makeShrinkValueIterator(v.begin() + n); return *it; }
X r_shrinkIter(const SV &v, std::size_t n) { return v[n].value(); }
X l_shrinkIter2(const SV &v, std::size_t n) { auto it = gen::detail::makeShrinkValueIterator(v.begin() + n); ++it; return *it; }
X r_shrinkIter2(const SV &v, std::size_t n) { return v[n + 1].value(); }
X l_shrinkIter3(const SV &v, std::size_t n) { auto it = gen::detail::makeShrinkValueIterator(v.begin() + n); return *it++; }
X r_shrinkIter3(const SV &v, std::size_t n) { return v[n].value(); }
bool l_shrinkIter4(const SV &v, std::size_t n, std::size_t m) { return gen::detail::makeShrinkValueIterator(v.begin() + n) != gen::detail::makeShrinkValueIterator(v.begin() + m); }
bool r_shrinkIter4(const SV &v, std::size_t n, std::size_t m) { return n != m; }
// sequences: any elements; sets: what can be inserted
using VS = gen::detail::GenericContainerStrategy<std::vector<X>>;
SV l_vecElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return VS().generateElements(r, s, n, g); }
SV r_vecElems(const Gen<X> &g, const Random &r, int s, std::size_t n, const SV &acc) {
  SV a(acc);
  if (!(a.size() < n)) return a;
  Random q(r);
  a.push_back(g(q.split(), s));
  again(q, a);
  return a;
}
Maybe<SV> l_vecShrink(const SV &v) { return VS().shrinkElements(v).next(); }
Maybe<SV> r_vecShrink(const SV &v, const Seq<Shrinkable<X>> &cur, std::size_t i) {
  Seq<Shrinkable<X>> q(cur);
  auto m = q.next();
  if (m) { SV w = v; w[i - 1] = *m; fin(q, i); return w; }
  if (i >= v.size()) { fin(q, i); return Nothing; }
  again(v[i].shrinks(), i + 1);
  return Nothing;
}
bool operator<(const X &, const X &);
using XSet = std::set<X>;
using SS_ = gen::detail::GenericContainerStrategy<XSet>;
SV l_setElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return SS_().generateElements(r, s, n, g); }
SV r_setElems(const Gen<X> &g, const Random &r, int s, std::size_t n, const SV &acc, const XSet &cur) {
  SV a(acc);
  if (!(a.size() < n)) return a;
  Random q(r);
  auto x = g(q.split(), s);
  XSet t(cur);
  if (t.insert(x.value()).second) { a.push_back(x); again(q, a, t); return a; }
  if (choice(1)) throw GenerationFailure("");
  again(q, s + 1, t);
  return a;
}
Maybe<SV> l_setShrink(const Shrinkable<X> &a) { return SS_().shrinkElements(SV{a}).next(); }
Maybe<SV> r_setShrink(const Shrinkable<X> &a, const Seq<Shrinkable<X>> &cur) {
  XSet t = gen::detail::toContainer<XSet, X>(SV{a});
  Seq<Shrinkable<X>> q(cur);
  auto m = q.next();
  if (!m) return Nothing;
  if (t.find(m->value()) == t.end()) return SV{*m};
  again(q);
  return Nothing;
}
// maps: insertable keys paired with any values
using XMap = std::map<X, Y>;
using MS = gen::detail::GenericContainerStrategy<XMap>;
using SP = std::vector<Shrinkable<std::pair<X, Y>>>;
SP l_mapElems(const Gen<X> &kg, const Gen<Y> &vg, const Random &r, int s, std::size_t n) { return MS().generateElements(r, s, n, kg, vg); }
SP r_mapElems(const Gen<X> &kg, const Gen<Y> &vg, const Random &r, int s, std::size_t n, const SP &acc, std::size_t i) {
  Random q(r);
  XMap m;
  auto d = vg(Random(), 0);
  auto ks = gen::detail::generateShrinkables(q.split(), s, n, kg, [&](const Shrinkable<X> &x) { return m.insert(std::make_pair(x.value(), d.value())).second; });
  auto vs = gen::detail::generateShrinkables(q, s, n, vg, fn::constant(true));
  SP a(acc);
  if (!(i < n)) return a;
  a.push_back(shrinkable::pair(std::move(ks[i]), std::move(vs[i])));
  again(a, i + 1);
  return a;
}
Maybe<SP> l_mapShrink(const Shrinkable<std::pair<X, Y>> &a) { return MS().shrinkElements(SP{a}).next(); }
Maybe<SP> r_mapShrink(const Shrinkable<std::pair<X, Y>> &a, const Seq<Shrinkable<std::pair<X, Y>>> &cur) {
  XMap t = gen::detail::toContainer<XMap, std::pair<X, Y>>(SP{a});
  Seq<Shrinkable<std::pair<X, Y>>> q(cur);
  auto m = q.next();
  if (!m) return Nothing;
  if (t.find(m->value().first) == t.end() || m->value().first == a.value().first) return SP{*m};
  again(q);
  return Nothing;
}
// multi containers: any elements
template <typename C> using GCS = gen::detail::GenericContainerStrategy<C>;
using XMSet = std::multiset<X>; using XUMSet = std::unordered_multiset<X>; using XUSet = std::unordered_set<X>;
using XMMap = std::multimap<X, Y>; using XUMMap = std::unordered_multimap<X, Y>; using XUMap = std::unordered_map<X, Y>;
SV l_msetElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return GCS<XMSet>().generateElements(r, s, n, g); }
SV r_msetElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::detail::generateShrinkables(r, s, n, g, fn::constant(true)); }
SV l_umsetElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return GCS<XUMSet>().generateElements(r, s, n, g); }
SV r_umsetElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::detail::generateShrinkables(r, s, n, g, fn::constant(true)); }
SV l_listElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return GCS<std::list<X>>().generateElements(r, s, n, g); }
SV r_listElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::detail::generateShrinkables(r, s, n, g, fn::constant(true)); }
SV l_usetElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { return GCS<XUSet>().generateElements(r, s, n, g); }
SV r_usetElems(const Gen<X> &g, const Random &r, int s, std::size_t n) { XUSet t; return gen::detail::generateShrinkables(r, s, n, g, [&](const Shrinkable<X> &x) { return t.insert(x.value()).second; }); }
SP l_mmapElems(const Gen<X> &kg, const Gen<Y> &vg, const Random &r, int s, std::size_t n) { return GCS<XMMap>().generateElements(r, s, n, kg, vg); }
SP r_mmapElems(const Gen<X> &kg, const Gen<Y> &vg, const Random &r, int s, std::size_t n) { return gen::detail::generateShrinkables(r, s, n, gen::pair(kg, vg), fn::constant(true)); }
SP l_ummapElems(const Gen<X> &kg, const Gen<Y> &vg, const Random &r, int s, std::size_t n) { return GCS<XUMMap>().generateElements(r, s, n, kg, vg); }
SP r_ummapElems(const Gen<X> &kg, const Gen<Y> &vg, const Random &r, int s, std::size_t n) { return gen::detail::generateShrinkables(r, s, n, gen::pair(kg, vg), fn::constant(true)); }
Maybe<SV> l_msetShrink(const SV &v) { return GCS<XMSet>().shrinkElements(v).next(); }
Maybe<SV> r_msetShrink(const SV &v, const Seq<Shrinkable<X>> &cur, std::size_t i) { return r_vecShrink(v, cur, i); }
Maybe<SP> l_mmapShrink(const SP &v) { return GCS<XMMap>().shrinkElements(v).next(); }
Maybe<SP> r_mmapShrink(const SP &v, const Seq<Shrinkable<std::pair<X, Y>>> &cur, std::size_t i) {
  Seq<Shrinkable<std::pair<X, Y>>> q(cur);
  auto m = q.next();
  if (m) { SP w = v; w[i - 1] = *m; fin(q, i); return w; }
  if (i >= v.size()) { fin(q, i); return Nothing; }
  again(v[i].shrinks(), i + 1);
  return Nothing;
}
// unique containers: keys that are not taken
struct FK { Y operator()(const X &) const; };
bool operator<(const Y &, const Y &);
using US = gen::detail::UniqueContainerStrategy<FK>;
SV l_uniqElems(const FK &f, const Gen<X> &g, const Random &r, int s, std::size_t n) { return US(f).generateElements(r, s, n, g); }
SV r_uniqElems(const FK &f, const Gen<X> &g, const Random &r, int s, std::size_t n) { std::set<Y> t; return gen::detail::generateShrinkables(r, s, n, g, [&](const Shrinkable<X> &x) { return t.insert(f(x.value())).second; }); }
Maybe<SV> l_uniqShrink(const FK &f, const Shrinkable<X> &a) { return US(f).shrinkElements(SV{a}).next(); }
Maybe<SV> r_uniqShrink(const FK &f, const Shrinkable<X> &a, const Seq<Shrinkable<X>> &cur) {
  std::set<Y> t;
  t.insert(f(a.value()));
  Seq<Shrinkable<X>> q(cur);
  auto m = q.next();
  if (!m) return Nothing;
  auto k = f(m->value()), o = f(a.value());
  if ((!(o < k) && !(k < o)) || t.count(k) == 0) return SV{*m};
  again(q);
  return Nothing;
}
// fixed size arrays
using Arr = std::array<X, 2>;
using AH = gen::detail::ContainerHelper<Arr, GCS<Arr>>;
Arr l_array(const Gen<X> &g, const Random &r, int s) { return AH(GCS<Arr>()).generate(r, s, g).value(); }
Arr r_array(const Gen<X> &g, const Random &r, int s) { auto e = gen::detail::generateShrinkables(r, s, 2, g, fn::constant(true)); Arr a; a[0] = e[0].value(); a[1] = e[1].value(); return a; }
Arr l_arrayN(const Gen<X> &g, const Random &r, int s, std::size_t n) { return AH(GCS<Arr>()).generate(n, r, s, g).value(); }
Arr r_arrayN(const Gen<X> &g, const Random &r, int s, std::size_t n) { if (n != 2) throw GenerationFailure(""); return AH(GCS<Arr>()).generate(r, s, g).value(); }
Maybe<Arr> l_arrayS(const Gen<X> &g, const Random &r, int s) { auto m = shr(AH(GCS<Arr>()).generate(r, s, g)); if (!m) return Nothing; return m->value(); }
Maybe<Arr> r_arrayS(const Gen<X> &g, const Random &r, int s, const Seq<Shrinkable<X>> &cur, std::size_t i) {
  auto e = gen::detail::generateShrinkables(r, s, 2, g, fn::constant(true));
  Seq<Shrinkable<X>> q(cur);
  auto m = q.next();
  if (m) { e[i - 1] = *m; Arr a; a[0] = e[0].value(); a[1] = e[1].value(); return a; }
  if (i >= e.size()) return Nothing;
  again(e[i].shrinks(), i + 1);
  return Nothing;
}
// wiring
#define WIRE1(N, C) \
  C l_##N(const Gen<X> &g, const Random &r, int s) { return gen::container<C>(g)(r, s).value(); } \
  C r_##N(const Gen<X> &g, const Random &r, int s) { return gen::detail::ContainerHelper<C, GCS<C>>(GCS<C>()).generate(r, s, g).value(); } \
  C l_##N##N(const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::container<C>(n, g)(r, s).value(); } \
  C r_##N##N(const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::detail::ContainerHelper<C, GCS<C>>(GCS<C>()).generate(n, r, s, g).value(); }
using XVec = std::vector<X>;
WIRE1(wvec, XVec)
WIRE1(wset, XSet)
#define WIRE2(N, C) \
  C l_##N(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return gen::container<C>(g, h)(r, s).value(); } \
  C r_##N(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s) { return gen::detail::ContainerHelper<C, GCS<C>>(GCS<C>()).generate(r, s, g, h).value(); } \
  C l_##N##N(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s, std::size_t n) { return gen::container<C>(n, g, h)(r, s).value(); } \
  C r_##N##N(const Gen<X> &g, const Gen<Y> &h, const Random &r, int s, std::size_t n) { return gen::detail::ContainerHelper<C, GCS<C>>(GCS<C>()).generate(n, r, s, g, h).value(); }
WIRE2(wmmap, XMMap)
using UHelp = gen::detail::ContainerHelper<XVec, US>;
XVec l_uniqBy(const FK &f, const Gen<X> &g, const Random &r, int s) { return gen::uniqueBy<XVec>(g, f)(r, s).value(); }
XVec r_uniqBy(const FK &f, const Gen<X> &g, const Random &r, int s) { return UHelp(US(f)).generate(r, s, g).value(); }
XVec l_uniqByN(const FK &f, const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::uniqueBy<XVec>(n, g, f)(r, s).value(); }
XVec r_uniqByN(const FK &f, const Gen<X> &g, const Random &r, int s, std::size_t n) { return UHelp(US(f)).generate(n, r, s, g).value(); }
XVec l_uniq(const Gen<X> &g, const Random &r, int s) { return gen::unique<XVec>(g)(r, s).value(); }
XVec r_uniq(const Gen<X> &g, const Random &r, int s) { return gen::uniqueBy<XVec>(g, [](const X &x) -> const X & { return x; })(r, s).value(); }
XVec l_uniqN(const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::unique<XVec>(n, g)(r, s).value(); }
XVec r_uniqN(const Gen<X> &g, const Random &r, int s, std::size_t n) { return gen::uniqueBy<XVec>(n, g, [](const X &x) -> const X & { return x; })(r, s).value(); }
#define ARB1(N, C) C l_##N(const Random &r, int s) { return gen::arbitrary<C>()(r, s).value(); } C r_##N(const Random &r, int s) { return gen::container<C>(arbX())(r, s).value(); }
#define ARB2(N, C) C l_##N(const Random &r, int s) { return gen::arbitrary<C>()(r, s).value(); } C r_##N(const Random &r, int s) { return gen::container<C>(arbX(), arbY())(r, s).value(); }
using XDeq = std::deque<X>; using XLst = std::list<X>; using XFwd = std::forward_list<X>;
ARB1(avec, XVec) ARB1(adeque, XDeq) ARB1(alist, XLst) ARB1(aflist, XFwd) ARB1(aset, XSet) ARB1(amset, XMSet) ARB1(auset, XUSet) ARB1(aumset, XUMSet) ARB1(aarray, Arr)
ARB2(amap, XMap) ARB2(ammap, XMMap) ARB2(aumap, XUMap) ARB2(aummap, XUMMap)
// chunks
Maybe<XVec> l_chunks1(const XVec &v) { return shrink::removeChunks(v).next(); }
Maybe<XVec> r_chunks1(const XVec &v) { if (v.size() == 0) return Nothing; return XVec(); }
void below(const XVec &v) { if (v.size() != 0) assume(v.size() - 1 < v.size()); }
XVec cut(const XVec &v, std::size_t at, std::size_t n) { XVec w; w.insert(w.end(), v.begin(), v.begin() + at); w.insert(w.end(), v.begin() + at + n, v.end()); return w; }
Maybe<XVec> l_chunks2(const XVec &v) { below(v); auto q = shrink::removeChunks(v); q.next(); return q.next(); }
Maybe<XVec> r_chunks2(const XVec &v) { auto n = v.size(); if (n == 0 || n - 1 == 0) return Nothing; return cut(v, 0, n - 1); }
Maybe<XVec> l_chunks3(const XVec &v) { below(v); auto q = shrink::removeChunks(v); q.next(); q.next(); return q.next(); }
Maybe<XVec> r_chunks3(const XVec &v) { auto n = v.size(); if (n == 0 || n - 1 == 0) return Nothing; return cut(v, 1, n - 1); }
// the values a shrink must differ from are those of all elements
Seq<SV> l_setShrinks(const SV &v) { return SS_().shrinkElements(v); }
Seq<SV> r_setShrinks(const SV &v) {
  auto t = std::make_shared<XSet>(gen::detail::toContainer<XSet>(v));
  return shrink::eachElement(v, [=](const Shrinkable<X> &s) {
    return seq::filter(s.shrinks(), [=](const Shrinkable<X> &x) { return t->find(x.value()) == t->end(); });
  });
}
Seq<SP> l_mapShrinks(const SP &v) { return MS().shrinkElements(v); }
Seq<SP> r_mapShrinks(const SP &v) {
  auto t = std::make_shared<XMap>(gen::detail::toContainer<XMap>(v));
  return shrink::eachElement(v, [=](const Shrinkable<std::pair<X, Y>> &s) {
    return seq::filter(s.shrinks(), [=](const Shrinkable<std::pair<X, Y>> &x) { return t->find(x.value().first) == t->end() || x.value().first == s.value().first; });
  });
}
Seq<SV> l_uniqShrinks(const FK &f, const SV &v) { return US(f).shrinkElements(v); }
Seq<SV> r_uniqShrinks(const FK &f, const SV &v, const std::set<Y> &) {
  std::set<Y> t;
  for (const auto &x : v) t.insert(f(x.value()));
  return shrink::eachElement(v, [=](const Shrinkable<X> &s) {
    return seq::filter(s.shrinks(), [=](const Shrinkable<X> &x) {
      auto k = f(x.value()), o = f(s.value());
      return (!(o < k) && !(k < o)) || t.count(k) == 0;
    });
  });
}
} // namespace laws
// ---- text: what is generated, told apart from how
namespace laws {
Shrinkable<char> g_char(const Random &r, int s) { return gen::character<char>()(r, s); }
Shrinkable<wchar_t> g_wchar(const Random &r, int s) { return gen::character<wchar_t>()(r, s); }
Shrinkable<std::string> g_string(const Random &r, int s) { return gen::string<std::string>()(r, s); }
Shrinkable<std::wstring> g_wstring(const Random &r, int s) { return gen::string<std::wstring>()(r, s); }
} // namespace laws
namespace laws {
Seq<char> g_charS(const char &c) { return shrink::character<char>(c); }
Seq<wchar_t> g_wcharS(const wchar_t &c) { return shrink::character<wchar_t>(c); }
Seq<char16_t> g_char16S(const char16_t &c) { return shrink::character<char16_t>(c); }
} // namespace laws
// ---- random streams: generators that only C15 looks at
namespace laws {
struct RCmd : public state::Command<N, Y> {
  void checkPreconditions(const N &) const override;
  void apply(N &) const override;
  void run(const N &, Y &) const override;
};
struct RGen { Gen<std::shared_ptr<const state::Command<N, Y>>> operator()(const N &) const; };
struct RInit { N operator()() const; };
bool v_vbool(const Random &r, int s) { return gen::arbitrary<bool>()(r, s).value(); }
int v_vint(const Random &r, int s) { return gen::arbitrary<int>()(r, s).value(); }
double v_vreal(const Random &r, int s) { return gen::arbitrary<double>()(r, s).value(); }
int v_vrange(int a, int b, const Random &r, int s) { return gen::inRange<int>(a, b)(r, s).value(); }
X v_vweighted(const X &a, const X &b, const Random &r, int s) { return gen::weightedElement<X>({{1, a}, {2, b}})(r, s).value(); }
X v_vsized(const XVec &v, const Random &r, int s) { return gen::sizedElementOf(v)(r, s).value(); }
X v_vwone(const Gen<X> &a, const Gen<X> &b, const Random &r, int s) { return gen::weightedOneOf<X>({{1, a}, {2, b}})(r, s).value(); }
X v_vsone(const Gen<X> &a, const Gen<X> &b, const Random &r, int s) { return gen::sizedOneOf<X>(a, b)(r, s).value(); }
char v_vchar(const Random &r, int s) { return gen::character<char>()(r, s).value(); }
std::string v_vstr(const Random &r, int s) { return gen::string<std::string>()(r, s).value(); }
state::Commands<state::Command<N, Y>> v_vcmds(const RInit &i, const RGen &g, const Random &r, int s) { return state::gen::commands(i, g)(r, s).value(); }
X v_vexec(const Gen<X> &a, const Random &r, int s) { return gen::exec([=](const X &x) { return x; })(r, s).value(); }
} // namespace laws
