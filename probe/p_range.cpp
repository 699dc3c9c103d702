// Numbers drawn from ranges, and choices among elements.
#include <rapidcheck.h>
#include "rapidcheck/gen/detail/ScaleInteger.h"
#include "rapidcheck/detail/BitStream.h"

namespace prg {
using namespace rc;
struct X { int id; X(); X(int); X(const X &); X(X &&); X &operator=(const X &); ~X(); };

std::uint64_t scaled(std::uint64_t x, int size) { return gen::detail::scaleInteger(x, size); }

template <typename T>
T inRange(T min, T max, const Random &r, int size) { return gen::inRange<T>(min, max)(r, size).value(); }

template <typename T>
Maybe<T> toward(T value, T target, int k) {
  auto seq = shrink::towards<T>(value, target);
  for (int i = 1; i < k; i++)
    if (!seq.next())
      return Nothing;
  return seq.next();
}

// the k-th shrink, and the k-th shrink of the j-th shrink
template <typename T>
Maybe<T> rangeShrink(T min, T max, const Random &r, int size, int j, int k) {
  auto s = gen::inRange<T>(min, max)(r, size);
  for (; j > 0; j--) {
    auto seq = s.shrinks();
    for (int i = 1; i < k; i++)
      if (!seq.next())
        return Nothing;
    auto n = seq.next();
    if (!n)
      return Nothing;
    s = *n;
  }
  return s.value();
}
Maybe<X> sizedShrink(const std::vector<X> &v, const Random &r, int size, int j, int k) {
  auto s = gen::sizedElementOf(v)(r, size);
  for (; j > 0; j--) {
    auto seq = s.shrinks();
    for (int i = 1; i < k; i++)
      if (!seq.next())
        return Nothing;
    auto n = seq.next();
    if (!n)
      return Nothing;
    s = *n;
  }
  return s.value();
}

X pick(const std::vector<X> &v, const Random &r, int size) { return gen::elementOf(v)(r, size).value(); }
X sized(const std::vector<X> &v, const Random &r, int size) { return gen::sizedElementOf(v)(r, size).value(); }
X weighted(unsigned w1, unsigned w2, unsigned w3, const X &a, const X &b, const X &c, const Random &r, int size) {
  return gen::weightedElement<X>({{std::size_t(w1), a}, {std::size_t(w2), b}, {std::size_t(w3), c}})(r, size).value();
}
X oneOf(const Gen<X> &a, const Gen<X> &b, const Gen<X> &c, const Random &r, int size) {
  return gen::oneOf(a, b, c)(r, size).value();
}

template <typename T>
void all() {
  (void)&inRange<T>;
  (void)&toward<T>;
  (void)&rangeShrink<T>;
}
void use() {
  all<char>(); all<signed char>(); all<unsigned char>(); all<short>(); all<unsigned short>();
  all<int>(); all<unsigned>(); all<long>(); all<unsigned long>(); all<long long>(); all<unsigned long long>();
}
// bits of a source of which nothing is known
struct Source { std::uint64_t next(); };
template <typename T>
struct Draws { std::uint64_t first; T second; };
template <typename T>
Draws<T> draw(const Source &s, int a, int b) {
  detail::BitStream<Source> stream(s);
  auto x = stream.next<std::uint64_t>(a);
  return {x, stream.next<T>(b)};
}
template <typename T>
T drawSized(const Source &s, int size) {
  return detail::BitStream<Source>(s).nextWithSize<T>(size);
}
template <typename T>
T drawAll(const Source &s) {
  return detail::BitStream<Source>(s).next<T>();
}
template <typename T>
void bits() {
  (void)&draw<T>;
  (void)&drawSized<T>;
  (void)&drawAll<T>;
}
void useBits() {
  bits<bool>(); bits<char>(); bits<signed char>(); bits<unsigned char>(); bits<short>(); bits<unsigned short>();
  bits<int>(); bits<unsigned>(); bits<long>(); bits<unsigned long>(); bits<long long>(); bits<unsigned long long>();
}
} // namespace prg
