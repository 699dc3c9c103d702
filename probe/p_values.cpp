// Laws about comparing values (C23).
#include <rapidcheck.h>
#include <rapidcheck/seq/SeqIterator.h>
using namespace rc;
namespace lval {
struct X { X(const X &); X(X &&); X &operator=(const X &); X &operator=(X &&); ~X(); };
struct Y { Y(const Y &); Y(Y &&); Y &operator=(const Y &); Y &operator=(Y &&); ~Y(); };
bool operator==(const X &, const X &);
bool operator==(const X &, const Y &);
bool operator==(const Y &, const Y &);
std::ostream &operator<<(std::ostream &, const X &);
std::ostream &operator<<(std::ostream &, const Y &);
using V = rc::detail::Variant<X, Y>;

bool l_maybe(const Maybe<X> &a, const Maybe<X> &b) { return a == b; }
bool r_maybe(const Maybe<X> &a, const Maybe<X> &b) { return a ? b ? *a == *b : false : !b; }
bool l_maybeNe(const Maybe<X> &a, const Maybe<X> &b) { return a != b; }
bool r_maybeNe(const Maybe<X> &a, const Maybe<X> &b) { return a ? b ? !(*a == *b) : true : bool(b); }
bool l_maybeXY(const Maybe<X> &a, const Maybe<Y> &b) { return a == b; }
bool r_maybeXY(const Maybe<X> &a, const Maybe<Y> &b) { return a ? b ? *a == *b : false : !b; }
bool l_maybeXYNe(const Maybe<X> &a, const Maybe<Y> &b) { return a != b; }
bool r_maybeXYNe(const Maybe<X> &a, const Maybe<Y> &b) { return a ? b ? !(*a == *b) : true : bool(b); }

bool l_variantXX(const X &x, const X &y) { return V(x) == V(y); }
bool r_variantXX(const X &x, const X &y) { return x == y; }
bool l_variantYY(const Y &x, const Y &y) { return V(x) == V(y); }
bool r_variantYY(const Y &x, const Y &y) { return x == y; }
bool l_variantXY(const X &x, const Y &y) { return V(x) == V(y); }
bool r_variantXY(const X &, const Y &) { return false; }
bool l_variantYX(const Y &x, const X &y) { return V(x) == V(y); }
bool r_variantYX(const Y &, const X &) { return false; }
bool l_variantNeXX(const X &x, const X &y) { return V(x) != V(y); }
bool r_variantNeXX(const X &x, const X &y) { return !(x == y); }
bool l_variantNeYY(const Y &x, const Y &y) { return V(x) != V(y); }
bool r_variantNeYY(const Y &x, const Y &y) { return !(x == y); }
bool l_variantNeXY(const X &x, const Y &y) { return V(x) != V(y); }
bool r_variantNeXY(const X &, const Y &) { return true; }

bool l_seq(const Seq<X> &a, const Seq<X> &b) { return a == b; }
bool r_seq(const Seq<X> &a, const Seq<X> &b) {
  Seq<X> p(a), q(b);
  while (true) {
    auto x = p.next();
    auto y = q.next();
    if (!x) return !y;
    if (!y) return false;
    if (!(*x == *y)) return false;
  }
}
bool l_seqNe(const Seq<X> &a, const Seq<X> &b) { return a != b; }
bool r_seqNe(const Seq<X> &a, const Seq<X> &b) {
  Seq<X> p(a), q(b);
  while (true) {
    auto x = p.next();
    auto y = q.next();
    if (!x) return bool(y);
    if (!y) return true;
    if (!(*x == *y)) return true;
  }
}

bool l_shrinkable(const Shrinkable<X> &a, const Shrinkable<X> &b) { return a == b; }
bool r_shrinkable(const Shrinkable<X> &a, const Shrinkable<X> &b) {
  return a.value() == b.value() ? a.shrinks() == b.shrinks() : false;
}
bool l_shrinkableNe(const Shrinkable<X> &a, const Shrinkable<X> &b) { return a != b; }
bool r_shrinkableNe(const Shrinkable<X> &a, const Shrinkable<X> &b) {
  return a.value() == b.value() ? !(a.shrinks() == b.shrinks()) : true;
}

bool l_iterEnd(const Seq<X> &a) { return begin(a) == end(a); }
bool r_iterEnd(const Seq<X> &a) { Seq<X> q(a); return !q.next(); }
bool l_iterNe(const Seq<X> &a) { return begin(a) != end(a); }
bool r_iterNe(const Seq<X> &a) { Seq<X> q(a); return bool(q.next()); }
bool l_iterNext(const Seq<X> &a) { auto it = begin(a); ++it; return it == end(a); }
bool r_iterNext(const Seq<X> &a) { Seq<X> q(a); q.next(); return !q.next(); }
X l_iterValue(const Seq<X> &a) { auto it = begin(a); return *it; }
X r_iterValue(const Seq<X> &a) { Seq<X> q(a); return *q.next(); }
X l_iterSecond(const Seq<X> &a) { auto it = begin(a); ++it; return *it; }
X r_iterSecond(const Seq<X> &a) { Seq<X> q(a); q.next(); return *q.next(); }
X l_iterPost(const Seq<X> &a) { auto it = begin(a); auto old = it++; return *old; }
X r_iterPost(const Seq<X> &a) { Seq<X> q(a); return *q.next(); }
X l_iterPost2(const Seq<X> &a) { auto it = begin(a); it++; return *it; }
X r_iterPost2(const Seq<X> &a) { Seq<X> q(a); q.next(); return *q.next(); }
} // namespace lval
