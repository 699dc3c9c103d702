// Writing values down and reading them back.
#include <rapidcheck.h>
#include "rapidcheck/detail/Serialization.h"
#include "rapidcheck/detail/Results.h"
#include "rapidcheck/detail/Configuration.h"
#include "detail/Base64.h"
#include "detail/MapParser.h"
#include "detail/StringSerialization.h"
#include <map>

namespace psx {
// an element of which nothing is known but that it is written and read
struct A { int id; };
bool operator==(const A &, const A &);
std::uint8_t tokenOf(const A &a);
A ofToken(std::uint8_t x);
template <typename Iterator>
Iterator serialize(const A &a, Iterator it) { *it = tokenOf(a); return ++it; }
template <typename Iterator>
Iterator deserialize(Iterator begin, Iterator end, A &a) {
  if (begin == end) throw rc::detail::SerializationException("end");
  a = ofToken(*begin);
  return ++begin;
}

} // namespace psx

namespace psr {
using namespace rc;
using namespace rc::detail;
using Bytes = std::vector<std::uint8_t>;
using psx::A;
using It = Bytes::const_iterator;

// what was read, the bytes written, and where reading ended
template <typename T>
struct Back {
  T value;
  Bytes bytes;
  It at;
};

template <typename T>
Back<T> fixed(T v) {
  Bytes d;
  serialize(v, std::back_inserter(d));
  T out;
  It at = deserialize(It(d.begin()), It(d.end()), out);
  return Back<T>{out, d, at};
}
template <typename T>
Back<T> compact(T v) {
  Bytes d;
  serializeCompact(v, std::back_inserter(d));
  T out;
  It at = deserializeCompact(It(d.begin()), It(d.end()), out);
  return Back<T>{out, d, at};
}
#define INTS(F) \
  F(char) F(signed char) F(unsigned char) F(short) F(unsigned short) F(int) F(unsigned int) \
  F(long) F(unsigned long) F(long long) F(unsigned long long)
#define FIXED(T) template Back<T> fixed<T>(T); template Back<T> compact<T>(T);
INTS(FIXED)

// reading anything
template <typename T>
T readFixed(const Bytes &d) {
  T out;
  deserialize(It(d.begin()), It(d.end()), out);
  return out;
}
template <typename T>
T readCompact(const Bytes &d) {
  T out;
  deserializeCompact(It(d.begin()), It(d.end()), out);
  return out;
}
#define READ(T) template T readFixed<T>(const Bytes &); template T readCompact<T>(const Bytes &);
INTS(READ)

// values made of others, with something after them
#define BACK(T, WRITE, READ)              \
  Bytes d;                                \
  WRITE;                                  \
  d.push_back(more);                      \
  T out{};                                \
  It at = READ;                           \
  return Back<T>{out, d, at}
#define PLAIN(T)                                             \
  BACK(T, serialize(v, std::back_inserter(d)),               \
       deserialize(It(d.begin()), It(d.end()), out))

using Pair = std::pair<A, int>;
using Map = std::unordered_map<std::string, A>;
Back<std::string> text(const std::string &v, std::uint8_t more) { PLAIN(std::string); }
Back<Pair> pair(const Pair &v, std::uint8_t more) { PLAIN(Pair); }
Back<Map> map(const Map &v, std::uint8_t more) { PLAIN(Map); }
Back<Random> random(const Random &v, std::uint8_t more) { PLAIN(Random); }
Back<Reproduce> reproduce(const Reproduce &v, std::uint8_t more) { PLAIN(Reproduce); }
using As = std::vector<A>;
Back<As> several(const As &v, std::uint8_t more) {
  BACK(As, serializeN(v.begin(), v.size(), std::back_inserter(d)),
       deserializeN<A>(It(d.begin()), It(d.end()), v.size(), std::back_inserter(out)));
}
using Ns = std::vector<std::size_t>;
Back<Ns> range(const Ns &v, std::uint8_t more) {
  BACK(Ns, serializeCompact(v.begin(), v.end(), std::back_inserter(d)),
       deserializeCompact<std::size_t>(It(d.begin()), It(d.end()), std::back_inserter(out)).first);
}
template <typename T>
T readAny(const Bytes &d) {
  T out{};
  deserialize(It(d.begin()), It(d.end()), out);
  return out;
}
template std::string readAny<std::string>(const Bytes &);
template Pair readAny<Pair>(const Bytes &);
template Map readAny<Map>(const Bytes &);
template Random readAny<Random>(const Bytes &);
template Reproduce readAny<Reproduce>(const Bytes &);
Ns readRange(const Bytes &d) {
  Ns out;
  deserializeCompact<std::size_t>(It(d.begin()), It(d.end()), std::back_inserter(out));
  return out;
}
using RMap = std::unordered_map<std::string, Reproduce>;
RMap reproduceMap(const RMap &m) { return stringToReproduceMap(reproduceMapToString(m)); }

using SMap = std::map<std::string, std::string>;
SMap parsed(const SMap &m) { return parseMap(mapToString(m)); }
SMap parsedDouble(const SMap &m) { return parseMap(mapToString(m, true)); }
SMap parsedSingle(const SMap &m) { return parseMap(mapToString(m, false)); }
SMap parse(const std::string &s) { return parseMap(s); }

Configuration fresh() { return Configuration(); }
Configuration config(const Configuration &c, const Configuration &d) {
  return configFromString(configToString(c), d);
}
Configuration minimal(const Configuration &c, const Configuration &d) {
  return configFromString(configToMinimalString(c), d);
}

RMap readReproduction(const std::string &s) { return stringToReproduceMap(s); }
Configuration readConfig(const std::string &s, const Configuration &d) {
  return configFromString(s, d);
}

Bytes base64(const Bytes &d) { return base64Decode(base64Encode(d)); }
std::string base64Text(const Bytes &d) { return base64Encode(d); }
Bytes base64Read(const std::string &s) { return base64Decode(s); }

} // namespace psr
