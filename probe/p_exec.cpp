// Laws about exec, recipes and implicit parameters (C24).  l_x uses the
// library, r_x states what it is documented to do.
#include <rapidcheck.h>
using namespace rc;
namespace lexec {
struct X { X(const X &); X(X &&); X &operator=(const X &); X &operator=(X &&); ~X(); };
struct Y { Y(const Y &); Y(Y &&); Y &operator=(const Y &); Y &operator=(Y &&); ~Y(); };
std::ostream &operator<<(std::ostream &, const X &);
std::ostream &operator<<(std::ostream &, const Y &);
} // namespace lexec
namespace rc {
template <> struct Arbitrary<lexec::X> { static Gen<lexec::X> arbitrary(); };
template <> struct Arbitrary<lexec::Y> { static Gen<lexec::Y> arbitrary(); };
}
namespace lexec {
using XY = std::pair<X, Y>;
X f();
Y g(const X &, const Y &);
bool test(const X &);

// one dereferenced generator
X l_one(const Gen<X> &a, const Random &r, int s) { return gen::exec([=] { return *a; })(r, s).value(); }
X r_one(const Gen<X> &a, const Random &r, int s) { return a(Random(r).split(), s).value(); }

// two
XY l_two(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  return gen::exec([=] { X x = *a; Y y = *b; return XY(x, y); })(r, s).value();
}
XY r_two(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  X x = a(q.split(), s).value();
  Y y = b(q.split(), s).value();
  return XY(x, y);
}

// the second generator depends on the first value
Y l_dep(const Gen<X> &a, const Gen<Y> &b, const Gen<Y> &c, const Random &r, int s) {
  return gen::exec([=] { X x = *a; if (test(x)) return *b; return *c; })(r, s).value();
}
Y r_dep(const Gen<X> &a, const Gen<Y> &b, const Gen<Y> &c, const Random &r, int s) {
  Random q(r);
  X x = a(q.split(), s).value();
  if (test(x)) return b(q.split(), s).value();
  return c(q.split(), s).value();
}

// shrinks of one
Maybe<X> l_oneS(const Gen<X> &a, const Random &r, int s) {
  auto q = gen::exec([=] { return *a; })(r, s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  return m->value();
}
Maybe<X> r_oneS(const Gen<X> &a, const Random &r, int s) {
  auto q = a(Random(r).split(), s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  return m->value();
}

// shrinks of shrinks of one
Maybe<X> l_oneSS(const Gen<X> &a, const Random &r, int s) {
  auto q = gen::exec([=] { return *a; })(r, s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  auto q2 = m->shrinks();
  auto m2 = q2.next();
  if (!m2) return Nothing;
  return m2->value();
}
Maybe<X> r_oneSS(const Gen<X> &a, const Random &r, int s) {
  auto q = a(Random(r).split(), s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  auto q2 = m->shrinks();
  auto m2 = q2.next();
  if (!m2) return Nothing;
  return m2->value();
}

// shrinks of two: those of the first with the second as generated from the
// same stream, then those of the second
Maybe<XY> l_twoS(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto q = gen::exec([=] { X x = *a; Y y = *b; return XY(x, y); })(r, s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  return m->value();
}
Maybe<XY> r_twoS(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  auto x = a(q.split(), s);
  auto y = b(q.split(), s);
  auto qa = x.shrinks();
  auto m = qa.next();
  if (m) return XY(m->value(), y.value());
  auto qb = y.shrinks();
  auto n = qb.next();
  if (n) return XY(x.value(), n->value());
  return Nothing;
}
Maybe<XY> l_twoS2(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto q = gen::exec([=] { X x = *a; Y y = *b; return XY(x, y); })(r, s).shrinks();
  q.next();
  auto m = q.next();
  if (!m) return Nothing;
  return m->value();
}
Maybe<XY> r_twoS2(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  auto x = a(q.split(), s);
  auto y = b(q.split(), s);
  auto qa = x.shrinks();
  auto qb = y.shrinks();
  auto m = qa.next();
  if (m) {
    auto m2 = qa.next();
    if (m2) return XY(m2->value(), y.value());
    auto n = qb.next();
    if (n) return XY(x.value(), n->value());
    return Nothing;
  }
  if (!qb.next()) return Nothing;
  auto n2 = qb.next();
  if (n2) return XY(x.value(), n2->value());
  return Nothing;
}
// once the second is shrunk the first stays
Maybe<XY> l_twoSS(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto q = gen::exec([=] { X x = *a; Y y = *b; return XY(x, y); })(r, s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  auto q2 = m->shrinks();
  auto m2 = q2.next();
  if (!m2) return Nothing;
  return m2->value();
}
Maybe<XY> r_twoSS(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  auto x = a(q.split(), s);
  auto y = b(q.split(), s);
  auto qa = x.shrinks();
  auto qb = y.shrinks();
  auto m = qa.next();
  if (m) {
    auto qa2 = m->shrinks();
    auto m2 = qa2.next();
    if (m2) return XY(m2->value(), y.value());
    auto n = qb.next();
    if (n) return XY(m->value(), n->value());
    return Nothing;
  }
  auto n = qb.next();
  if (!n) return Nothing;
  auto qb2 = n->shrinks();
  auto n2 = qb2.next();
  if (n2) return XY(x.value(), n2->value());
  return Nothing;
}

Maybe<XY> l_twoSS2(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto q = gen::exec([=] { X x = *a; Y y = *b; return XY(x, y); })(r, s).shrinks();
  q.next();
  auto m = q.next();
  if (!m) return Nothing;
  auto q2 = m->shrinks();
  auto m2 = q2.next();
  if (!m2) return Nothing;
  return m2->value();
}
Maybe<XY> r_twoSS2(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  auto x = a(q.split(), s);
  auto y = b(q.split(), s);
  auto qa = x.shrinks();
  auto qb = y.shrinks();
  auto m = qa.next();
  if (m) {
    auto n = qa.next();
    if (n) {
      auto qn = n->shrinks();
      auto n2 = qn.next();
      if (n2) return XY(n2->value(), y.value());
      auto k = qb.next();
      if (k) return XY(n->value(), k->value());
      return Nothing;
    }
  }
  else if (!qb.next()) return Nothing;
  auto k = qb.next();
  if (!k) return Nothing;
  auto qk = k->shrinks();
  auto k2 = qk.next();
  if (k2) return XY(x.value(), k2->value());
  return Nothing;
}

// what comes after a shrunk value is chosen anew from the shrunk value on
Maybe<Y> l_depS(const Gen<X> &a, const Gen<Y> &b, const Gen<Y> &c, const Random &r, int s) {
  auto q = gen::exec([=] { X x = *a; if (test(x)) return *b; return *c; })(r, s).shrinks();
  auto m = q.next();
  if (!m) return Nothing;
  return m->value();
}
Maybe<Y> r_depS(const Gen<X> &a, const Gen<Y> &b, const Gen<Y> &c, const Random &r, int s) {
  Random q(r);
  auto x = a(q.split(), s);
  Random r2 = q.split();
  auto qa = x.shrinks();
  auto m = qa.next();
  if (m) return test(m->value()) ? b(r2, s).value() : c(r2, s).value();
  auto qy = test(x.value()) ? b(r2, s).shrinks() : c(r2, s).shrinks();
  auto n = qy.next();
  if (!n) return Nothing;
  return n->value();
}

// executing again yields the same
XY l_twice(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto e = gen::exec([=] { X x = *a; Y y = *b; return XY(x, y); })(r, s);
  e.value();
  auto q = e.shrinks();
  return e.value();
}
XY r_twice(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  X x = a(q.split(), s).value();
  Y y = b(q.split(), s).value();
  return XY(x, y);
}

// exec inside exec
XY l_nest(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  return gen::exec([=] { X x = *gen::exec([=] { return *a; }); Y y = *b; return XY(x, y); })(r, s).value();
}
XY r_nest(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  X x = a(q.split().split(), s).value();
  Y y = b(q.split(), s).value();
  return XY(x, y);
}

// a generator cannot use operator* by itself ...
struct Bad { X operator()(X &&) const; Gen<X> b; };
inline X Bad::operator()(X &&) const { return *b; }
X l_scope(const Gen<X> &a, const Gen<X> &b, const Random &r, int s) {
  return gen::exec([=] { return *gen::map(a, Bad{b}); })(r, s).value();
}
X r_scope(const Gen<X> &a, const Gen<X> &b, const Random &r, int s) { throw std::runtime_error(""); }
// ... after which the one around it goes on
Y l_scope2(const Gen<X> &a, const Gen<X> &b, const Gen<Y> &c, const Random &r, int s) {
  return gen::exec([=] { try { *gen::map(a, Bad{b}); } catch (...) {} return *c; })(r, s).value();
}
Y r_scope2(const Gen<X> &a, const Gen<X> &b, const Gen<Y> &c, const Random &r, int s) {
  Random q(r);
  q.split();
  return c(q.split(), s).value();
}
// a generator that fails
struct Fails { Shrinkable<X> operator()(const Random &, int) const { throw GenerationFailure(""); } };
X l_fails(const Random &r, int s) {
  return gen::exec([=] { return *Gen<X>(Fails()); })(r, s).value();
}
X r_fails(const Random &r, int s) { throw GenerationFailure(""); }
Y l_fails2(const Gen<Y> &c, const Random &r, int s) {
  return gen::exec([=] { try { *Gen<X>(Fails()); } catch (...) {} return *c; })(r, s).value();
}
Y r_fails2(const Gen<Y> &c, const Random &r, int s) {
  Random q(r);
  q.split();
  return c(q.split(), s).value();
}

// parameters are arbitrary values
Y l_param(const Random &r, int s) { return gen::exec([](const X &x, Y y) { return g(x, y); })(r, s).value(); }
Y r_param(const Random &r, int s) {
  auto t = gen::arbitrary<std::tuple<X, Y>>()(Random(r).split(), s).value();
  return g(std::get<0>(t), std::get<1>(t));
}
Y l_param2(const Gen<Y> &b, const Random &r, int s) { return gen::exec([=](const X &x) { Y y = *b; return g(x, y); })(r, s).value(); }
Y r_param2(const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  auto t = gen::arbitrary<std::tuple<X>>()(q.split(), s).value();
  return g(std::get<0>(t), b(q.split(), s).value());
}

// what the recipe records
std::string l_name(const Gen<X> &a, const std::string &n, const Random &r, int s) {
  return gen::detail::execRaw([=] { return *a.as(n); })(r, s).value().second.ingredients[0].description;
}
std::string r_name(const Gen<X> &a, const std::string &n, const Random &r, int s) { return n; }
std::string l_name2(const Gen<X> &a, const Gen<X> &b, const Random &r, int s) {
  return gen::detail::execRaw([=] { *a; return *b; })(r, s).value().second.ingredients[1].description;
}
std::string r_name2(const Gen<X> &a, const Gen<X> &b, const Random &r, int s) { return b.name(); }
X l_ingr(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto p = gen::detail::execRaw([=] { X x = *a; return *b; })(r, s).value();
  return p.second.ingredients[0].value().get<X>();
}
X r_ingr(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) { return a(Random(r).split(), s).value(); }
Y l_ingr2(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto p = gen::detail::execRaw([=] { X x = *a; return *b; })(r, s).value();
  return p.second.ingredients[1].value().get<Y>();
}
Y r_ingr2(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) { Random q(r); q.split(); return b(q.split(), s).value(); }
std::size_t l_count(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  return gen::detail::execRaw([=] { X x = *a; return *b; })(r, s).value().second.ingredients.size();
}
std::size_t r_count(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) { return 2; }
// recipe of a shrink
X l_ingrS(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  auto q = gen::detail::execRaw([=] { X x = *a; return *b; })(r, s).shrinks();
  auto m = q.next();
  if (!m) return f();
  return m->value().second.ingredients[0].value().get<X>();
}
X r_ingrS(const Gen<X> &a, const Gen<Y> &b, const Random &r, int s) {
  Random q(r);
  auto x = a(q.split(), s);
  auto qa = x.shrinks();
  auto m = qa.next();
  if (m) return m->value();
  if (b(q.split(), s).shrinks().next()) return x.value();
  return f();
}

// ---- implicit parameters
using detail::ImplicitParam;
using detail::ImplicitScope;
struct P { using ValueType = X; static X defaultValue(); };
struct Q { using ValueType = Y; static Y defaultValue(); };
X l_ipBind(const X &x) { ImplicitParam<P> p(x); return ImplicitParam<P>::value(); }
X r_ipBind(const X &x) { return x; }
X l_ipInner(const X &x, const X &y) { ImplicitParam<P> p(x); ImplicitParam<P> q(y); return ImplicitParam<P>::value(); }
X r_ipInner(const X &x, const X &y) { return y; }
X l_ipBack(const X &x, const X &y) { ImplicitParam<P> p(x); { ImplicitParam<P> q(y); } return ImplicitParam<P>::value(); }
X r_ipBack(const X &x, const X &y) { return x; }
X l_ipThrow(const X &x, const X &y) { ImplicitParam<P> p(x); try { ImplicitParam<P> q(y); throw 1; } catch (...) {} return ImplicitParam<P>::value(); }
X r_ipThrow(const X &x, const X &y) { return x; }
X l_ipOther(const X &x, const Y &y) { ImplicitParam<P> p(x); ImplicitParam<Q> q(y); return ImplicitParam<P>::value(); }
X r_ipOther(const X &x, const Y &y) { return x; }
X l_ipSet(const X &x, const X &y) { ImplicitParam<P> p(x); ImplicitParam<P>::value() = y; return ImplicitParam<P>::value(); }
X r_ipSet(const X &x, const X &y) { return y; }
X l_isDefault(const X &x) { ImplicitParam<P> p(x); ImplicitScope s; return ImplicitParam<P>::value(); }
X r_isDefault(const X &x) { return P::defaultValue(); }
X l_isBack(const X &x, const X &y) { ImplicitParam<P> p(x); { ImplicitScope s; ImplicitParam<P>::value() = y; } return ImplicitParam<P>::value(); }
X r_isBack(const X &x, const X &y) { return x; }
X l_isUnused(const X &x) { ImplicitParam<P> p(x); { ImplicitScope s; } return ImplicitParam<P>::value(); }
X r_isUnused(const X &x) { return x; }
X l_isKeep(const X &y) { ImplicitScope s; ImplicitParam<P>::value() = y; return ImplicitParam<P>::value(); }
X r_isKeep(const X &y) { return y; }
X l_isNest(const X &x, const X &y) { ImplicitParam<P> p(y); ImplicitScope s; ImplicitParam<P>::value() = x; { ImplicitScope t; ImplicitParam<P>::value() = y; } return ImplicitParam<P>::value(); }
X r_isNest(const X &x, const X &y) { return x; }
X l_isBind(const X &x, const X &y) { ImplicitParam<P> p(x); ImplicitScope s; ImplicitParam<P> q(y); return ImplicitParam<P>::value(); }
X r_isBind(const X &x, const X &y) { return y; }
X l_isBind2(const X &x, const X &y) { ImplicitParam<P> p(x); { ImplicitScope s; { ImplicitParam<P> q(y); } ImplicitParam<P>::value(); } return ImplicitParam<P>::value(); }
X r_isBind2(const X &x, const X &y) { return x; }
X l_isTwo(const X &x, const Y &y) { ImplicitParam<P> p(x); ImplicitParam<Q> q(y); { ImplicitScope s; ImplicitParam<P>::value(); ImplicitParam<Q>::value(); } ImplicitParam<Q>::value(); return ImplicitParam<P>::value(); }
X r_isTwo(const X &x, const Y &y) { return x; }
Y l_isTwo2(const X &x, const Y &y) { ImplicitParam<P> p(x); ImplicitParam<Q> q(y); { ImplicitScope s; ImplicitParam<P>::value(); ImplicitParam<Q>::value(); } return ImplicitParam<Q>::value(); }
Y r_isTwo2(const X &x, const Y &y) { return y; }
X l_isThrow(const X &x, const X &y) { ImplicitParam<P> p(x); try { ImplicitScope s; ImplicitParam<P>::value() = y; throw 1; } catch (...) {} return ImplicitParam<P>::value(); }
X r_isThrow(const X &x, const X &y) { return x; }
X l_isOuter(const X &x, const X &y) { ImplicitParam<P> p(y); ImplicitScope s; ImplicitParam<P>::value() = x; { ImplicitScope t; } { ImplicitScope u; ImplicitParam<P>::value() = y; } return ImplicitParam<P>::value(); }
X r_isOuter(const X &x, const X &y) { return x; }
} // namespace lexec
