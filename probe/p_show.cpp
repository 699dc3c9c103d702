// Laws about showing values (C29).
#include <rapidcheck.h>
#include <rapidcheck/state.h>
using namespace rc;
namespace lshow {
struct X { X(const X &); X(X &&); X &operator=(const X &); ~X(); };   // has <<
struct Y { Y(const Y &); Y(Y &&); Y &operator=(const Y &); ~Y(); };   // has showValue and <<
struct Z { Z(const Z &); Z(Z &&); Z &operator=(const Z &); ~Z(); };   // has showValue alone
struct W { W(const W &); W(W &&); W &operator=(const W &); ~W(); };   // has neither
std::ostream &operator<<(std::ostream &, const X &);
std::ostream &operator<<(std::ostream &, const Y &);
void showValue(const Y &, std::ostream &);
void showValue(const Z &, std::ostream &);
using S = std::string;
template <typename T> S sh(const T &x) { std::ostringstream os; show(x, os); return os.str(); }
template <typename T> S out(const T &x) { std::ostringstream os; os << x; return os.str(); }

S l_stream(const X &x) { return sh(x); }
S r_stream(const X &x) { std::ostringstream os; os << x; return os.str(); }
S l_value(const Y &x) { return sh(x); }
S r_value(const Y &x) { std::ostringstream os; showValue(x, os); return os.str(); }
S l_valueOnly(const Z &x) { return sh(x); }
S r_valueOnly(const Z &x) { std::ostringstream os; showValue(x, os); return os.str(); }
S l_neither(const W &x) { return sh(x); }
S r_neither(const W &) { return "<\?\?\?>"; }
S l_toString(const X &x) { return toString(x); }
S r_toString(const X &x) { return sh(x); }
void l_after(const X &x, std::ostream &os) { show(x, os); }
void r_after(const X &x, std::ostream &os) { os << x; }

S l_command(const state::Command<X, Y> &c) { return sh(c); }
S r_command(const state::Command<X, Y> &c) { std::ostringstream os; c.show(os); return os.str(); }

S l_pair(const X &x, const Y &y) { return sh(std::pair<X, Y>(x, y)); }
S r_pair(const X &x, const Y &y) { return "(" + sh(x) + ", " + sh(y) + ")"; }
S l_tuple0() { return sh(std::tuple<>()); }
S r_tuple0() { return "()"; }
S l_tuple1(const X &x) { return sh(std::tuple<X>(x)); }
S r_tuple1(const X &x) { return "(" + sh(x) + ")"; }
S l_tuple2(const X &x, const Y &y) { return sh(std::tuple<X, Y>(x, y)); }
S r_tuple2(const X &x, const Y &y) { return "(" + sh(x) + ", " + sh(y) + ")"; }
S l_tuple3(const X &x, const Y &y, const X &z) { return sh(std::tuple<X, Y, X>(x, y, z)); }
S r_tuple3(const X &x, const Y &y, const X &z) { return "(" + sh(x) + ", " + sh(y) + ", " + sh(z) + ")"; }
S l_tuple4(const X &x, const Y &y, const X &z, const W &w) { return sh(std::tuple<X, Y, X, W>(x, y, z, w)); }
S r_tuple4(const X &x, const Y &y, const X &z, const W &) { return "(" + sh(x) + ", " + sh(y) + ", " + sh(z) + ", <\?\?\?>)"; }

S l_vec0() { std::vector<X> v; return sh(v); }
S r_vec0() { return "[]"; }
S l_vec1(const X &x) { std::vector<X> v; v.push_back(x); return sh(v); }
S r_vec1(const X &x) { return "[" + sh(x) + "]"; }
S l_vec2(const X &x, const X &y) { std::vector<X> v; v.push_back(x); v.push_back(y); return sh(v); }
S r_vec2(const X &x, const X &y) { return "[" + sh(x) + ", " + sh(y) + "]"; }
S l_vec3(const X &x, const X &y, const X &z) { std::vector<X> v; v.push_back(x); v.push_back(y); v.push_back(z); return sh(v); }
S r_vec3(const X &x, const X &y, const X &z) { return "[" + sh(x) + ", " + sh(y) + ", " + sh(z) + "]"; }

S l_true() { return sh(true); }
S r_true() { return "true"; }
S l_false() { return sh(false); }
S r_false() { return "false"; }
S l_char(char c) { return sh(c); }
S r_char(char c) { return std::to_string(static_cast<int>(c)); }
S l_uchar(unsigned char c) { return sh(c); }
S r_uchar(unsigned char c) { return std::to_string(static_cast<int>(c)); }

S l_some(const X &x) { return sh(Maybe<X>(x)); }
S r_some(const X &x) { return sh(x); }
S l_maybe(const Maybe<Y> &x) { return sh(x); }
S r_maybe(const Maybe<Y> &x) { return x ? sh(*x) : S("Nothing"); }

S l_seq0() { return sh(Seq<X>()); }
S r_seq0() { return "[]"; }
S l_seq1(const X &x) { return sh(seq::just(x)); }
S r_seq1(const X &x) { return "[" + sh(x) + "]"; }
S l_seq2(const X &x, const X &y) { return sh(seq::just(x, y)); }
S r_seq2(const X &x, const X &y) { return "[" + sh(x) + ", " + sh(y) + "]"; }
S l_seq3(const X &x, const X &y, const X &z) { return sh(seq::just(x, y, z)); }
S r_seq3(const X &x, const X &y, const X &z) { return "[" + sh(x) + ", " + sh(y) + ", " + sh(z) + "]"; }

using V = rc::detail::Variant<X, Y>;
S l_variantX(const X &x) { return sh(V(x)); }
S r_variantX(const X &x) { return out(x); }
S l_variantY(const Y &x) { return sh(V(x)); }
S r_variantY(const Y &x) { return out(x); }

S l_unique(const std::unique_ptr<X> &p) { return sh(p); }
S r_unique(const std::unique_ptr<X> &p) { return sh(p.get()); }
void p_null(std::ostream &os) { const X *p = nullptr; show(p, os); }
void p_nullText(std::ostream &os) { const char *p = nullptr; show(p, os); }
void p_nullPointer(std::ostream &os) { const X **p = nullptr; show(p, os); }
S l_shared(const std::shared_ptr<X> &p) { return sh(p); }
S r_shared(const std::shared_ptr<X> &p) { return sh(p.get()); }
S l_cstr(const char *p) { return p ? sh(p) : S(); }
S r_cstr(const char *p) { return p ? sh(S(p)) : S(); }

void p_containers(const std::vector<X> &a, const std::deque<X> &b, const std::list<X> &c,
                  const std::forward_list<X> &d, const std::set<X> &e, const std::map<X, Y> &f,
                  const std::multiset<X> &g, const std::multimap<X, Y> &h,
                  const std::unordered_set<X> &i, const std::unordered_map<X, Y> &j,
                  const std::unordered_multiset<X> &k, const std::unordered_multimap<X, Y> &l,
                  const std::array<X, 3> &m, const Seq<X> &o, const X *p,
                  const std::vector<std::shared_ptr<const state::Command<X, Y>>> &q,
                  std::ostream &os) {
  show(a, os); show(b, os); show(c, os); show(d, os); show(e, os); show(f, os); show(g, os);
  show(h, os); show(i, os); show(j, os); show(k, os); show(l, os); show(m, os);
  show(o, os); show(p, os); show(q, os);
}
} // namespace lshow
