// Probe unit: containers of payloads whose special members are only declared,
// so that each construction, assignment and destruction of a payload is a
// visible event.  It is never linked and never run.
#include <rapidcheck.h>
#include <rapidcheck/detail/Any.h>
#include <rapidcheck/detail/Variant.h>

namespace probe {

struct T { // every operation may throw
  T();
  T(int);
  T(const T &);
  T(T &&);
  T &operator=(const T &);
  T &operator=(T &&);
  ~T();
};

template <int I>
struct A { // an alternative of a variant
  A(const A &) noexcept;
  A(A &&) noexcept;
  A &operator=(const A &) noexcept;
  A &operator=(A &&) noexcept;
  ~A();
  bool operator==(const A &) const;
};
template <int I>
std::ostream &operator<<(std::ostream &, const A<I> &);

struct MoveOnly {
  MoveOnly(MoveOnly &&);
  MoveOnly &operator=(MoveOnly &&);
  ~MoveOnly();
};
std::ostream &operator<<(std::ostream &, const MoveOnly &);
std::ostream &operator<<(std::ostream &, const T &);

bool operator==(const T &, const T &);

using V = rc::detail::Variant<A<0>, A<1>, A<2>>;

void maybes(rc::Maybe<T> &m, const rc::Maybe<T> &c, T &t, const T &ct, int i) {
  m.init();
  m.init(i);
  m.init(t);
  m.init(ct);
  m.init(std::move(t));
  m = ct;
  m = std::move(t);
  m = rc::Nothing;
  (void)(m == c);
  (void)(m != c);
}
void maybes2(rc::Maybe<MoveOnly> &m, MoveOnly &t) {
  m.init(std::move(t));
  m = std::move(t);
  rc::Maybe<MoveOnly> n(std::move(t));
  rc::Maybe<MoveOnly> o(std::move(m));
  m = std::move(o);
  m.reset();
}

template <int I>
void alt(V &v, const V &cv, A<I> &a, const A<I> &ca) {
  V v1(a), v2(ca), v3(std::move(a));
  v = ca;
  v = std::move(a);
  (void)v.template is<A<I>>();
  (void)v.template get<A<I>>();
  (void)cv.template get<A<I>>();
  (void)std::move(v).template get<A<I>>();
  (void)cv.match(a);
}
template void alt<0>(V &, const V &, A<0> &, const A<0> &);
template void alt<1>(V &, const V &, A<1> &, const A<1> &);
template void alt<2>(V &, const V &, A<2> &, const A<2> &);
void variants(V &v, const V &cv, std::ostream &os) {
  V a(cv), b(std::move(v));
  v = cv;
  v = std::move(a);
  (void)(v == cv);
  (void)(v != cv);
  os << v;
}

void anys(T &t, const T &ct, MoveOnly &m, rc::detail::Any &a, const rc::detail::Any &ca) {
  a = rc::detail::Any::of(t);
  a = rc::detail::Any::of(ct);
  a = rc::detail::Any::of(std::move(t));
  a = rc::detail::Any::of(std::move(m));
  a.get<T>();
  ca.get<T>();
  a.get<MoveOnly>();
  rc::detail::Any b(std::move(a));
  b = std::move(a);
}

} // namespace probe

template class rc::Maybe<probe::T>;
template class rc::detail::Variant<probe::A<0>, probe::A<1>, probe::A<2>>;
