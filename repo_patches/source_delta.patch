From c1e8313582a3550cdb23d3e0c4dd864ad84696bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 01/17] fix: handle failures while generating property
 arguments as part of the test case

A property taking an argument whose generator gives up (or throws) let the
exception escape rc::check instead of discarding or failing the test case.
---
 include/rapidcheck/detail/Property.hpp | 34 +++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/rapidcheck/detail/Property.hpp b/include/rapidcheck/detail/Property.hpp
index 34fd594..6bedc29 100644
--- a/include/rapidcheck/detail/Property.hpp
+++ b/include/rapidcheck/detail/Property.hpp
@@ -63,12 +63,34 @@ public:
       : m_callable(std::forward<Arg>(callable)) {}
 
   TaggedResult operator()(Args &&... args) const {
+    return run([&] {
+      return CaseResultHelper<ReturnType>::resultOf(
+          m_callable, static_cast<Args &&>(args)...);
+    });
+  }
+
+  /// Generates the arguments and then calls the callable with those. Generating
+  /// the arguments is part of the test case so errors while doing so are handled
+  /// the same way as errors in the callable itself.
+  TaggedResult withGeneratedArguments() const {
+    return run([this] {
+      return gen::detail::execWithArguments(
+          [this](Args &&... args) {
+            return CaseResultHelper<ReturnType>::resultOf(
+                m_callable, static_cast<Args &&>(args)...);
+          },
+          TypeList<Args...>());
+    });
+  }
+
+private:
+  template <typename Case>
+  TaggedResult run(const Case &testCase) const {
     AdapterContext context;
     ImplicitParam<param::CurrentPropertyContext> letContext(&context);
 
     try {
-      context.reportResult(CaseResultHelper<ReturnType>::resultOf(
-          m_callable, static_cast<Args &&>(args)...));
+      context.reportResult(testCase());
     } catch (const CaseResult &result) {
       context.reportResult(result);
     } catch (const GenerationFailure &e) {
@@ -89,7 +111,6 @@ public:
     return context.result();
   }
 
-private:
   Callable m_callable;
 };
 
@@ -98,9 +119,10 @@ mapToCaseDescription(Gen<std::pair<TaggedResult, gen::detail::Recipe>> gen);
 
 template <typename Callable>
 Property toProperty(Callable &&callable) {
-  using Adapter = PropertyAdapter<Decay<Callable>>;
-  return mapToCaseDescription(
-      gen::detail::execRaw(Adapter(std::forward<Callable>(callable))));
+  const PropertyAdapter<Decay<Callable>> adapter(
+      std::forward<Callable>(callable));
+  return mapToCaseDescription(gen::detail::execRaw(
+      [adapter] { return adapter.withGeneratedArguments(); }));
 }
 
 } // namespace detail
-- 
2.43.0


From 1b7a3ad8e79b200dcb768c9772180bfe672e710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 02/17] fix: make the doctest integration compile

Inside namespace rc::doctest the name doctest refers to that namespace so
neither the using directive nor the macros of the framework could find
::doctest::detail.
---
 extras/doctest/include/rapidcheck/doctest.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extras/doctest/include/rapidcheck/doctest.h b/extras/doctest/include/rapidcheck/doctest.h
index 65229cd..bd5a5f3 100644
--- a/extras/doctest/include/rapidcheck/doctest.h
+++ b/extras/doctest/include/rapidcheck/doctest.h
@@ -41,6 +41,9 @@ void check(const char*          d,
            bool                 v = false,
            std::source_location s = std::source_location::current())
 {
+  // Inside `rc::doctest`, plain `doctest` would not find the framework.
+  namespace doctest = ::doctest;
+
   using namespace rc::detail;
   using namespace doctest::detail;
 
-- 
2.43.0


From 2bfd7b91de82307fdeb1ba694be7c2b9a308d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 03/17] fix: allow copy assignment from an empty Seq

The copy constructor handles a Seq without implementation but the copy
assignment operator dereferenced the null pointer.
---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From 029069b20a8f0ce032e6b1b3f1fb7017b492f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 04/17] fix: destroy the temporary in copy assignment of
 Variant

---
 include/rapidcheck/detail/Variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..9b18788 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -170,6 +170,7 @@ operator=(const Variant &rhs) noexcept(
     destroy(m_typeIndex, &m_storage);
     move(rhs.m_typeIndex, &m_storage, &tmp);
     m_typeIndex = rhs.m_typeIndex;
+    destroy(m_typeIndex, &tmp);
   }
 
   return *this;
-- 
2.43.0


From 2eb1582a02d6920f431b0d238c17deb8a97edb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 05/17] fix: copy the key function of unique containers when it
 is an lvalue

UniqueContainerStrategy moved from its constructor argument even when that
was an lvalue of the caller, leaving e.g. an empty std::function behind.
---
 include/rapidcheck/gen/Container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..f488abe 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -238,7 +238,7 @@ class UniqueContainerStrategy {
 public:
   template <typename Arg>
   explicit UniqueContainerStrategy(Arg &&arg)
-      : m_f(std::move(arg)) {}
+      : m_f(std::forward<Arg>(arg)) {}
 
   template <typename T>
   Shrinkables<T> generateElements(const Random &random,
-- 
2.43.0


From 8b8ef90eff9112477efb2c09adfdfd20d205cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 06/17] fix: let the shrinks of unique containers own the key
 function

The sequence returned by shrinkElements captured the strategy by pointer
and used it after the shrinkable owning the strategy was destroyed.
---
 include/rapidcheck/gen/Container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index f488abe..bc93d58 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,15 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // The returned `Seq` may outlive this object.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From 4a7d647b31cede605d5205a3deb92badcfd1736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 07/17] fix: keep characters that are not char out of a
 conversion to char when shrinking

Shrinking a wide character converted its lower case form to char, which
turned e.g. L'\u0100' into '\0', a character that is never generated.
---
 include/rapidcheck/shrink/Shrink.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..efc3161 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -188,13 +188,13 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 template <typename T>
 Seq<T> character(T value) {
   const auto &locale = std::locale::classic();
-  auto shrinks = seq::cast<T>(seq::concat(
-      seq::fromContainer(std::string("abc")),
-      // TODO this seems a bit hacky
-      std::islower(static_cast<char>(value), locale)
-          ? Seq<char>()
-          : seq::just(static_cast<char>(std::tolower(value, locale))),
-      seq::fromContainer(std::string("ABC123 \n"))));
+  auto shrinks = seq::concat(
+      seq::cast<T>(seq::fromContainer(std::string("abc"))),
+      // No conversion to char here, it may turn other characters into '\0'.
+      std::isupper(value, locale)
+          ? seq::just(static_cast<T>(std::tolower(value, locale)))
+          : Seq<T>(),
+      seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
 }
-- 
2.43.0


From e589abf02890be7da191efc92d7aa2c5200c2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:03 +0000
Subject: [PATCH 08/17] fix: tear fixtures down also when the property throws

---
 include/rapidcheck/detail/ExecFixture.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/ExecFixture.h b/include/rapidcheck/detail/ExecFixture.h
index d188d56..94ab708 100644
--- a/include/rapidcheck/detail/ExecFixture.h
+++ b/include/rapidcheck/detail/ExecFixture.h
@@ -14,7 +14,12 @@ struct ExecFixture<Fixture, TypeList<Args...>> {
   static void exec(Args &&... args) {
     Fixture fixture;
     fixture.rapidCheck_fixtureSetUp();
-    fixture(std::forward<Args>(args)...);
+    try {
+      fixture(std::forward<Args>(args)...);
+    } catch (...) {
+      fixture.rapidCheck_fixtureTearDown();
+      throw;
+    }
     fixture.rapidCheck_fixtureTearDown();
   }
 };
-- 
2.43.0


From e94f027ad4bb0a9791b16cc7aee3b50de0414f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 09/17] fix: show strings unambiguously: escape backslashes,
 pad hex escapes

---
 src/Show.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index ae5272b..42c5694 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -16,7 +16,7 @@ void showValue(const std::string &value, std::ostream &os) {
     if (!std::isspace(c, locale) && std::isprint(c, locale)) {
       switch (c) {
       case '\\':
-        os << "\\";
+        os << "\\\\";
         break;
       case '"':
         os << "\\\"";
@@ -55,9 +55,11 @@ void showValue(const std::string &value, std::ostream &os) {
         break;
       default:
         auto flags = os.flags();
+        auto fill = os.fill('0');
         os << "\\x";
-        os << std::hex << std::setprecision(2) << std::uppercase
+        os << std::hex << std::setw(2) << std::uppercase
            << static_cast<int>(c & 0xFF);
+        os.fill(fill);
         os.flags(flags);
       }
     }
-- 
2.43.0


From 2850eec91be8481bef0e41779adac6a4bec5a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 10/17] fix: show null pointers without reading through them

---
 include/rapidcheck/Show.hpp | 5 +++++
 src/Show.cpp                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index b3fe559..16374fa 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -63,6 +63,11 @@ void showValue(const char *value, std::ostream &os);
 
 template <typename T>
 void showValue(T *p, std::ostream &os) {
+  if (p == nullptr) {
+    os << "nullptr";
+    return;
+  }
+
   show(*p, os);
   auto flags = os.flags();
   os << " (" << std::hex << std::showbase << p << ")";
diff --git a/src/Show.cpp b/src/Show.cpp
index 42c5694..eee8474 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -68,6 +68,11 @@ void showValue(const std::string &value, std::ostream &os) {
 }
 
 void showValue(const char *value, std::ostream &os) {
+  if (value == nullptr) {
+    os << "nullptr";
+    return;
+  }
+
   show(std::string(value), os);
 }
 
-- 
2.43.0


From 154f1d1220003a182fe10eb8d7484aa06726472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 11/17] fix: restore the format of the stream after printing
 the distribution

---
 src/detail/Results.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/detail/Results.cpp b/src/detail/Results.cpp
index f50e177..af1749c 100644
--- a/src/detail/Results.cpp
+++ b/src/detail/Results.cpp
@@ -100,6 +100,8 @@ void printDistribution(const SuccessResult &result, std::ostream &os) {
       end(entries),
       [](const Entry &p1, const Entry &p2) { return p2.second < p1.second; });
 
+  const auto flags = os.flags();
+  const auto precision = os.precision();
   for (const auto &entry : entries) {
     const auto percent =
         (static_cast<double>(entry.second) / result.numSuccess) * 100.0;
@@ -113,6 +115,8 @@ void printDistribution(const SuccessResult &result, std::ostream &os) {
     }
     os << std::endl;
   }
+  os.flags(flags);
+  os.precision(precision);
 }
 }
 
-- 
2.43.0


From 9589eda9ebc506f69f523f85ac253948f8d77676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:21 +0000
Subject: [PATCH 12/17] fix: report compact integers that do not fit instead of
 shifting out of range

---
 include/rapidcheck/detail/Serialization.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..f08d8c4 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -190,7 +190,14 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
     auto x = static_cast<std::uint8_t>(*it);
-    uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
+    const auto bits = static_cast<UInt>(x & 0x7F);
+    if ((nbits >= std::numeric_limits<UInt>::digits) ||
+        (static_cast<UInt>(static_cast<UInt>(bits << nbits) >> nbits) !=
+         bits)) {
+      throw SerializationException("Integer out of range");
+    }
+
+    uvalue |= static_cast<UInt>(bits << nbits);
     nbits += 7;
     if ((x & 0x80) == 0) {
       output = static_cast<T>(uvalue);
-- 
2.43.0


From 21b002abcd6de26d77a094ed473a2a752d61aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:21 +0000
Subject: [PATCH 13/17] fix: do not reserve memory for a string length that is
 not checked yet

---
 include/rapidcheck/detail/Serialization.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index f08d8c4..75b73d3 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -55,7 +55,6 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   iit = deserializeCompact(iit, end, len);
 
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From e2021d24081cb3bec525e26077f90832f8633207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:21 +0000
Subject: [PATCH 14/17] fix: check the last byte of a serialized Random

---
 include/rapidcheck/Random.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..9aa37f3 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -39,7 +39,15 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   }
   output.m_counter = counter;
 
-  output.m_bitsi = *iit;
+  if (iit == end) {
+    throw SerializationException("Unexpected end of input");
+  }
+
+  const auto bitsi = static_cast<std::uint8_t>(*iit);
+  if (bitsi > Random::kBits) {
+    throw SerializationException("Number of bits out of range");
+  }
+  output.m_bitsi = bitsi;
   return ++iit;
 }
 
-- 
2.43.0


From c81593600cdec324b58e038a24b45c19cef7d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:21 +0000
Subject: [PATCH 15/17] fix: report a missing key instead of ignoring the rest
 of the string

---
 src/detail/MapParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detail/MapParser.cpp b/src/detail/MapParser.cpp
index b70a2d0..2dfd2a4 100644
--- a/src/detail/MapParser.cpp
+++ b/src/detail/MapParser.cpp
@@ -123,6 +123,11 @@ std::map<std::string, std::string> parseMap(const std::string &str) {
     config[pair.first] = pair.second;
   }
 
+  skipSpace(state);
+  if (!state.end()) {
+    throw ParseException(state.pos, "Expected key");
+  }
+
   return config;
 }
 
-- 
2.43.0


From 44e3ad6b77cba288e04111908aeb4dd29c045cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:21 +0000
Subject: [PATCH 16/17] fix: reject configuration values with something after
 the number

---
 src/detail/Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/Configuration.cpp b/src/detail/Configuration.cpp
index 5a9f91c..02c42a0 100644
--- a/src/detail/Configuration.cpp
+++ b/src/detail/Configuration.cpp
@@ -48,7 +48,7 @@ template <typename T>
 void fromString(const std::string &str, T &out, bool &ok) {
   std::istringstream in(std::move(str));
   in >> out;
-  ok = !in.fail();
+  ok = !in.fail() && (in >> std::ws).eof();
 }
 
 template <typename T>
-- 
2.43.0


From 504ba5616fd5fe092b36af5374b39fde37ddda64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:06 +0000
Subject: [PATCH 17/17] fix: compute the distance to the shrink target without
 signed overflow

---
 include/rapidcheck/shrink/Shrink.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index efc3161..f354b41 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -18,7 +18,8 @@ public:
 
   TowardsSeq(T value, T target)
       : m_value(value)
-      , m_diff((target < value) ? (value - target) : (target - value))
+      , m_diff((target < value) ? (UInt(value) - UInt(target))
+                              : (UInt(target) - UInt(value)))
       , m_down(target < value) {}
 
   Maybe<T> operator()() {
-- 
2.43.0

