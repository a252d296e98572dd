From 47565ed4cd0909dadaee4ec152eedf395080d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 01/27] fix: copy assignment from an empty Seq dereferenced a
 null pointer

---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From f849a5f701c77123194e859cfe1b3a2f8521284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 02/27] fix: Random restored over a used Random kept the old
 block and compared unequal

---
 include/rapidcheck/Random.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..2b3d58c 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -26,6 +26,8 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
 
   Random::Counter counter;
   iit = deserializeCompact(iit, end, counter);
+  // The output might have been used before so don't leave its old block around.
+  output.m_block = Random::Block();
   // Normally, the block is calculated lazily if counter is divisible by 4 so
   // let's simulate this.
   if (counter != 0) {
-- 
2.43.0


From fff6963425b43a5cc1916d8d4f5ada012904250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 03/27] fix: restoring a truncated Random read past the end of
 its input

---
 include/rapidcheck/Random.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index 2b3d58c..09836e8 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -41,8 +41,14 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   }
   output.m_counter = counter;
 
-  output.m_bitsi = *iit;
-  return ++iit;
+  std::uint8_t bitsi;
+  iit = deserialize(iit, end, bitsi);
+  if (bitsi > Random::kBits) {
+    throw SerializationException("Invalid number of bits");
+  }
+  output.m_bitsi = bitsi;
+
+  return iit;
 }
 
 } // namespace rc
-- 
2.43.0


From 6b6303958114e996cb8076528569d3fd669aa794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 04/27] fix: overlong compact integer shifted past the width of
 the type

---
 include/rapidcheck/detail/Serialization.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..79800dd 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -189,6 +189,10 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   UInt uvalue = 0;
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
+    if (nbits >= std::numeric_limits<UInt>::digits) {
+      throw SerializationException("Integer too large");
+    }
+
     auto x = static_cast<std::uint8_t>(*it);
     uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
     nbits += 7;
-- 
2.43.0


From aace1237f039b32b52811ab0ec5e2561b59a4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 05/27] fix: forged string length in serialized data reserved
 an absurd amount of memory

---
 include/rapidcheck/detail/Serialization.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index 79800dd..43f5641 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -55,7 +55,6 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   iit = deserializeCompact(iit, end, len);
 
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From 567d8b7834e96576934c3532a49432c3dbd1f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 06/27] fix: copying a partially consumed sequence of
 shrinkables dereferenced a null pointer

---
 include/rapidcheck/Shrinkable.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/Shrinkable.hpp b/include/rapidcheck/Shrinkable.hpp
index 20e0f7b..bf76153 100644
--- a/include/rapidcheck/Shrinkable.hpp
+++ b/include/rapidcheck/Shrinkable.hpp
@@ -56,7 +56,9 @@ Seq<Shrinkable<T>> Shrinkable<T>::shrinks() const noexcept {
 template <typename T>
 Shrinkable<T>::Shrinkable(const Shrinkable &other) noexcept
     : m_impl(other.m_impl) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
@@ -66,7 +68,9 @@ Shrinkable<T>::Shrinkable(Shrinkable &&other) noexcept : m_impl(other.m_impl) {
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(const Shrinkable &other) noexcept {
-  other.m_impl->retain();
+  if (other.m_impl) {
+    other.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
-- 
2.43.0


From dbcd4a884a4a40c6ecb8bb516d48256ee5a75ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 07/27] fix: uniqueBy moved from a function object given as an
 lvalue

---
 include/rapidcheck/gen/Container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..f488abe 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -238,7 +238,7 @@ class UniqueContainerStrategy {
 public:
   template <typename Arg>
   explicit UniqueContainerStrategy(Arg &&arg)
-      : m_f(std::move(arg)) {}
+      : m_f(std::forward<Arg>(arg)) {}
 
   template <typename T>
   Shrinkables<T> generateElements(const Random &random,
-- 
2.43.0


From 94b27c7dae589734dfb77e0ab7c0dbd7381678ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 08/27] fix: shrinks of uniqueBy used a destroyed function
 object

---
 include/rapidcheck/gen/Container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index f488abe..f5b3e47 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,15 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // The sequence may outlive this strategy so it needs its own copy.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From db115b70895269e2ade721e886ed2a8f9547a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 09/27] fix: shrinking towards a distant value overflowed a
 signed integer

---
 include/rapidcheck/shrink/Shrink.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..1aad78a 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -18,7 +18,9 @@ public:
 
   TowardsSeq(T value, T target)
       : m_value(value)
-      , m_diff((target < value) ? (value - target) : (target - value))
+      , m_diff((target < value)
+                   ? (static_cast<UInt>(value) - static_cast<UInt>(target))
+                   : (static_cast<UInt>(target) - static_cast<UInt>(value)))
       , m_down(target < value) {}
 
   Maybe<T> operator()() {
-- 
2.43.0


From 0caf33fb1fd4aceef063c8faef90fc192d79100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 10/27] fix: exceptions while generating property arguments
 escaped from the check

---
 include/rapidcheck/detail/Property.hpp | 31 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/rapidcheck/detail/Property.hpp b/include/rapidcheck/detail/Property.hpp
index 34fd594..fc4b784 100644
--- a/include/rapidcheck/detail/Property.hpp
+++ b/include/rapidcheck/detail/Property.hpp
@@ -63,12 +63,33 @@ public:
       : m_callable(std::forward<Arg>(callable)) {}
 
   TaggedResult operator()(Args &&... args) const {
+    return run([&] {
+      return CaseResultHelper<ReturnType>::resultOf(
+          m_callable, static_cast<Args &&>(args)...);
+    });
+  }
+
+  /// Calls the callable with generated arguments. Anything thrown while
+  /// generating these is part of the outcome of the test case.
+  TaggedResult withGeneratedArguments() const {
+    return run([&] {
+      return gen::detail::execWithArguments(
+          [&](Args &&... args) {
+            return CaseResultHelper<ReturnType>::resultOf(
+                m_callable, static_cast<Args &&>(args)...);
+          },
+          TypeList<Args...>());
+    });
+  }
+
+private:
+  template <typename Run>
+  TaggedResult run(const Run &runCase) const {
     AdapterContext context;
     ImplicitParam<param::CurrentPropertyContext> letContext(&context);
 
     try {
-      context.reportResult(CaseResultHelper<ReturnType>::resultOf(
-          m_callable, static_cast<Args &&>(args)...));
+      context.reportResult(runCase());
     } catch (const CaseResult &result) {
       context.reportResult(result);
     } catch (const GenerationFailure &e) {
@@ -89,7 +110,6 @@ public:
     return context.result();
   }
 
-private:
   Callable m_callable;
 };
 
@@ -99,8 +119,9 @@ mapToCaseDescription(Gen<std::pair<TaggedResult, gen::detail::Recipe>> gen);
 template <typename Callable>
 Property toProperty(Callable &&callable) {
   using Adapter = PropertyAdapter<Decay<Callable>>;
-  return mapToCaseDescription(
-      gen::detail::execRaw(Adapter(std::forward<Callable>(callable))));
+  const Adapter adapter(std::forward<Callable>(callable));
+  return mapToCaseDescription(gen::detail::execRaw(
+      [adapter] { return adapter.withGeneratedArguments(); }));
 }
 
 } // namespace detail
-- 
2.43.0


From 5985ae91b8919c59fd5a587c935ed7bece1b43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 11/27] fix: callbacks run while shrinking or describing a
 nested check saw the enclosing test case's context

---
 src/detail/Testing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 8ec5b6e..e3cebbd 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -1,6 +1,7 @@
 #include "Testing.h"
 
 #include "rapidcheck/BeforeMinimalTestCase.h"
+#include "rapidcheck/detail/ImplicitParam.h"
 #include "rapidcheck/shrinkable/Operations.h"
 
 namespace rc {
@@ -156,6 +157,10 @@ TestResult testProperty(const Property &property,
                         const TestMetadata &metadata,
                         const TestParams &params,
                         TestListener &listener) {
+  // This might be called from inside of another test case, nothing that runs on
+  // behalf of this property should take part in that one.
+  ImplicitScope newScope;
+
   TestResult result = doTestProperty(property, params, listener);
   listener.onTestFinished(metadata, result);
   return result;
@@ -163,6 +168,9 @@ TestResult testProperty(const Property &property,
 
 TestResult reproduceProperty(const Property &property,
                              const Reproduce &reproduce) {
+  // See `testProperty`
+  ImplicitScope newScope;
+
   const auto shrinkable = property(reproduce.random, reproduce.size);
   const auto minShrinkable =
       shrinkable::walkPath(shrinkable, reproduce.shrinkPath);
-- 
2.43.0


From 467db1cc51b55a6c84cb64c33fc8aec22050e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 12/27] fix: compute the discard limit without overflow

---
 src/detail/Testing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index e3cebbd..a9109c1 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -38,7 +38,8 @@ SearchResult searchProperty(const Property &property,
   searchResult.numDiscarded = 0;
   searchResult.tags.reserve(params.maxSuccess);
 
-  const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
+  const auto maxDiscard =
+      static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
 
   auto recentDiscards = 0;
   auto r = Random(params.seed);
-- 
2.43.0


From b0e1b06bf7604b68f427973b4b156bf146605851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 13/27] fix: spread the test case sizes without overflow

---
 src/detail/Testing.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index a9109c1..3ca8caa 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -13,17 +13,20 @@ int sizeFor(const TestParams &params, int i) {
   // multiple of the number of sizes (i.e. maxSize + 1). Another thing is that
   // we always want to ensure that the maximum size is actually used.
 
-  const auto numSizes = params.maxSize + 1;
+  // Sizes and counts may be as large as an `int` allows, the intermediate results
+  // below are even larger.
+  const auto maxSize = static_cast<int64_t>(params.maxSize);
+  const auto numSizes = maxSize + 1;
   const auto numRegular = (params.maxSuccess / numSizes) * numSizes;
   if (i < numRegular) {
-    return i % numSizes;
+    return static_cast<int>(i % numSizes);
   }
 
   const auto numRest = params.maxSuccess - numRegular;
   if (numRest == 1) {
     return 0;
   } else {
-    return ((i % numSizes) * params.maxSize) / (numRest - 1);
+    return static_cast<int>(((i % numSizes) * maxSize) / (numRest - 1));
   }
 }
 
-- 
2.43.0


From fdc1acded42bc7441c2b7dd9883747aadc7e9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 14/27] fix: do not allocate for successes that may never
 happen

---
 src/detail/Testing.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 3ca8caa..f11c25e 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -39,7 +39,6 @@ SearchResult searchProperty(const Property &property,
   searchResult.type = SearchResult::Type::Success;
   searchResult.numSuccess = 0;
   searchResult.numDiscarded = 0;
-  searchResult.tags.reserve(params.maxSuccess);
 
   const auto maxDiscard =
       static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
-- 
2.43.0


From bb075d740f14b42f323a5dbe6fb1daf84afe1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 15/27] fix: do not grow the size past the largest int after
 discards

---
 src/detail/Testing.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index f11c25e..44a3ded 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -1,5 +1,8 @@
 #include "Testing.h"
 
+#include <algorithm>
+#include <limits>
+
 #include "rapidcheck/BeforeMinimalTestCase.h"
 #include "rapidcheck/detail/ImplicitParam.h"
 #include "rapidcheck/shrinkable/Operations.h"
@@ -46,8 +49,10 @@ SearchResult searchProperty(const Property &property,
   auto recentDiscards = 0;
   auto r = Random(params.seed);
   while (searchResult.numSuccess < params.maxSuccess) {
-    const auto size =
-        sizeFor(params, searchResult.numSuccess) + (recentDiscards / 10);
+    const auto size = static_cast<int>(std::min<int64_t>(
+        static_cast<int64_t>(sizeFor(params, searchResult.numSuccess)) +
+            (recentDiscards / 10),
+        std::numeric_limits<int>::max()));
     const auto random = r.split();
 
     auto shrinkable = property(random, size);
-- 
2.43.0


From e2cc898e3ca1cd034289c68f6a20e530f77de81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 16/27] fix: destroy the temporary of Variant copy assignment

---
 include/rapidcheck/detail/Variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..9b18788 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -170,6 +170,7 @@ operator=(const Variant &rhs) noexcept(
     destroy(m_typeIndex, &m_storage);
     move(rhs.m_typeIndex, &m_storage, &tmp);
     m_typeIndex = rhs.m_typeIndex;
+    destroy(m_typeIndex, &tmp);
   }
 
   return *this;
-- 
2.43.0


From 90f269aa8a348c26bfb035981c0c5bf62f83b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 17/27] fix: a throwing copy in Variant value assignment leaves
 the old value

---
 include/rapidcheck/detail/Variant.h   | 4 +++-
 include/rapidcheck/detail/Variant.hpp | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/rapidcheck/detail/Variant.h b/include/rapidcheck/detail/Variant.h
index bc17851..0044e9f 100644
--- a/include/rapidcheck/detail/Variant.h
+++ b/include/rapidcheck/detail/Variant.h
@@ -29,7 +29,9 @@ public:
   template <typename T,
             typename = typename std::enable_if<
                 std::is_nothrow_move_constructible<T>::value>::type>
-  Variant &operator=(const T &value) noexcept;
+  Variant &operator=(const T &value) noexcept(
+      std::is_nothrow_copy_constructible<T>::value
+          &&std::is_nothrow_copy_assignable<T>::value);
 
   /// Move-assigns the given value to this `Variant`.
   template <typename T,
diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index 9b18788..ba20097 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -38,16 +38,19 @@ Variant<Type, Types...>::Variant(T &&value) noexcept(
 template <typename Type, typename... Types>
 template <typename T, typename>
 Variant<Type, Types...> &Variant<Type, Types...>::
-operator=(const T &value) noexcept {
+operator=(const T &value) noexcept(
+    std::is_nothrow_copy_constructible<T>::value
+        &&std::is_nothrow_copy_assignable<T>::value) {
   static_assert(isValidType<T>(), "T is not a valid type of this variant");
 
   const auto newIndex = indexOfType<T>();
   if (newIndex == m_typeIndex) {
     *reinterpret_cast<T *>(&m_storage) = value;
   } else {
+    T tmp(value);
     destroy(m_typeIndex, &m_storage);
     m_typeIndex = newIndex;
-    new (&m_storage) T(value);
+    new (&m_storage) T(std::move(tmp));
   }
   return *this;
 }
-- 
2.43.0


From e85ebaec2414de842e3b60b926cbbee9407fa271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 18/27] fix: a moved-from Gen can be copied

---
 include/rapidcheck/Gen.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/Gen.hpp b/include/rapidcheck/Gen.hpp
index 0c48004..8c35cf6 100644
--- a/include/rapidcheck/Gen.hpp
+++ b/include/rapidcheck/Gen.hpp
@@ -95,12 +95,16 @@ Gen<T> Gen<T>::as(const std::string &name) const {
 template <typename T>
 Gen<T>::Gen(const Gen &other) noexcept : m_impl(other.m_impl),
                                          m_name(other.m_name) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(const Gen &rhs) noexcept {
-  rhs.m_impl->retain();
+  if (rhs.m_impl) {
+    rhs.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
-- 
2.43.0


From 4209c71873d2337d91508c482731383c307b29a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 19/27] fix: tear down the fixture when the body of a test case
 throws

---
 include/rapidcheck/detail/ExecFixture.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/ExecFixture.h b/include/rapidcheck/detail/ExecFixture.h
index d188d56..94ab708 100644
--- a/include/rapidcheck/detail/ExecFixture.h
+++ b/include/rapidcheck/detail/ExecFixture.h
@@ -14,7 +14,12 @@ struct ExecFixture<Fixture, TypeList<Args...>> {
   static void exec(Args &&... args) {
     Fixture fixture;
     fixture.rapidCheck_fixtureSetUp();
-    fixture(std::forward<Args>(args)...);
+    try {
+      fixture(std::forward<Args>(args)...);
+    } catch (...) {
+      fixture.rapidCheck_fixtureTearDown();
+      throw;
+    }
     fixture.rapidCheck_fixtureTearDown();
   }
 };
-- 
2.43.0


From c3d662ac55483c4b1f44edd98b9ec4d1da3b9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 20/27] fix: sized integer generation overflows int at huge
 sizes

---
 include/rapidcheck/detail/BitStream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/BitStream.hpp b/include/rapidcheck/detail/BitStream.hpp
index a4a2157..ff27250 100644
--- a/include/rapidcheck/detail/BitStream.hpp
+++ b/include/rapidcheck/detail/BitStream.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <limits>
 
 #include "rapidcheck/detail/Utility.h"
@@ -85,7 +86,9 @@ T BitStream<Source>::next(int nbits, std::false_type) {
 template <typename Source>
 template <typename T>
 T BitStream<Source>::nextWithSize(int size) {
-  return next<T>((size * numBits<T>() + (kNominalSize / 2)) / kNominalSize);
+  const auto scaledBits = static_cast<int64_t>(size) * numBits<T>();
+  return next<T>(
+      static_cast<int>((scaledBits + (kNominalSize / 2)) / kNominalSize));
 }
 
 template <typename Source>
-- 
2.43.0


From d23c4d4a1b39165e08eca6b0d3de2f1daf6e8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 21/27] fix: gen::maybe overflows int at the largest size

---
 include/rapidcheck/gen/Maybe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Maybe.hpp b/include/rapidcheck/gen/Maybe.hpp
index 8991743..9dcc15e 100644
--- a/include/rapidcheck/gen/Maybe.hpp
+++ b/include/rapidcheck/gen/Maybe.hpp
@@ -12,7 +12,7 @@ public:
 
   Shrinkable<Maybe<T>> operator()(const Random &random, int size) const {
     auto r = random;
-    const auto x = r.split().next() % (size + 1);
+    const auto x = r.split().next() % (static_cast<uint64_t>(size) + 1);
     if (x == 0) {
       return shrinkable::lambda([]{ return Maybe<T>(); });
     }
-- 
2.43.0


From b02b21310b06a7691fdffa512271957ced9ccd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 22/27] fix: retrying generators grow the size past INT_MAX

---
 include/rapidcheck/gen/Container.hpp | 6 +++++-
 include/rapidcheck/gen/Predicate.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index f5b3e47..dc79de5 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
 #include "rapidcheck/gen/detail/ShrinkValueIterator.h"
@@ -51,7 +53,9 @@ Shrinkables<T> generateShrinkables(const Random &random,
                                 std::to_string(count) +
                                 " values for container");
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
   }
 
diff --git a/include/rapidcheck/gen/Predicate.hpp b/include/rapidcheck/gen/Predicate.hpp
index 5ab6290..6cd257b 100644
--- a/include/rapidcheck/gen/Predicate.hpp
+++ b/include/rapidcheck/gen/Predicate.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 namespace rc {
 namespace gen {
 namespace detail {
@@ -22,7 +24,9 @@ public:
       if (shrinkable) {
         return std::move(*shrinkable);
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
 
     throw GenerationFailure(
-- 
2.43.0


From 3eff5afc5a0d2c8f23c5602d1712e0a73d53f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 23/27] fix: gen::scale converts an out of range double to int

---
 include/rapidcheck/gen/Transform.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Transform.hpp b/include/rapidcheck/gen/Transform.hpp
index e9433fa..91f31ab 100644
--- a/include/rapidcheck/gen/Transform.hpp
+++ b/include/rapidcheck/gen/Transform.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <limits>
+
 #include "rapidcheck/shrinkable/Transform.h"
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
@@ -120,7 +123,10 @@ Gen<T> resize(int size, Gen<T> gen) {
 template <typename T>
 Gen<T> scale(double scale, Gen<T> gen) {
   return [=](const Random &random, int size) {
-    return gen(random, static_cast<int>(size * scale));
+    const auto scaled =
+        std::min(size * scale,
+                 static_cast<double>(std::numeric_limits<int>::max()));
+    return gen(random, static_cast<int>(scaled));
   };
 }
 
-- 
2.43.0


From f924e7aee1e6580d33e4f8ea39b47f63ec7041b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:56 +0000
Subject: [PATCH 24/27] fix: rc::doctest::check does not compile

Inside of rc::doctest, `doctest::detail` names a namespace that does not exist,
in the function itself and in the macros of doctest it uses.
---
 extras/doctest/include/rapidcheck/doctest.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extras/doctest/include/rapidcheck/doctest.h b/extras/doctest/include/rapidcheck/doctest.h
index 65229cd..58a0a1d 100644
--- a/extras/doctest/include/rapidcheck/doctest.h
+++ b/extras/doctest/include/rapidcheck/doctest.h
@@ -7,6 +7,10 @@
 
 namespace rc::doctest {
 
+// The code below, and what the macros of doctest expand to, name things as
+// `doctest::...`, which means this namespace here.
+using namespace ::doctest;
+
 /**
  * Checks the given predicate by applying it to randomly generated arguments.
  *
-- 
2.43.0


From 31d6a7ad21cb62ea2f22cd6058dbc0f0fe443942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:03 +0000
Subject: [PATCH 25/27] fix: seq::iterate calls its callable before the result
 is asked for

---
 include/rapidcheck/seq/Create.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/seq/Create.hpp b/include/rapidcheck/seq/Create.hpp
index 8a6f52a..ef42f89 100644
--- a/include/rapidcheck/seq/Create.hpp
+++ b/include/rapidcheck/seq/Create.hpp
@@ -87,17 +87,22 @@ public:
   template <typename ValueArg, typename CallableArg>
   IterateSeq(ValueArg &&value, CallableArg &&iterate)
       : m_value(std::forward<ValueArg>(value))
-      , m_iterate(std::forward<CallableArg>(iterate)) {}
+      , m_iterate(std::forward<CallableArg>(iterate))
+      , m_started(false) {}
 
   Maybe<T> operator()() {
-    T value = m_value;
-    m_value = m_iterate(std::move(m_value));
-    return value;
+    // The callable is not called until its result is asked for.
+    if (m_started) {
+      m_value = m_iterate(std::move(m_value));
+    }
+    m_started = true;
+    return m_value;
   }
 
 private:
   T m_value;
   Callable m_iterate;
+  bool m_started;
 };
 
 template <typename T>
-- 
2.43.0


From b72dbb62ac2a20dcd5b4071308dbadc0821561eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:07 +0000
Subject: [PATCH 26/27] fix: different strings are shown as the same text

---
 src/Show.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index ae5272b..323448e 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -2,7 +2,6 @@
 
 #include <string>
 #include <iostream>
-#include <iomanip>
 #include <cctype>
 #include <locale>
 
@@ -16,7 +15,7 @@ void showValue(const std::string &value, std::ostream &os) {
     if (!std::isspace(c, locale) && std::isprint(c, locale)) {
       switch (c) {
       case '\\':
-        os << "\\";
+        os << "\\\\";
         break;
       case '"':
         os << "\\\"";
@@ -54,11 +53,9 @@ void showValue(const std::string &value, std::ostream &os) {
         os << ' ';
         break;
       default:
-        auto flags = os.flags();
-        os << "\\x";
-        os << std::hex << std::setprecision(2) << std::uppercase
-           << static_cast<int>(c & 0xFF);
-        os.flags(flags);
+        // Always two digits, those that follow may belong to the string.
+        const char *const digits = "0123456789ABCDEF";
+        os << "\\x" << digits[(c >> 4) & 0xF] << digits[c & 0xF];
       }
     }
   }
-- 
2.43.0


From f89f761ece29a938725e102877531488647bd035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:07 +0000
Subject: [PATCH 27/27] fix: showing a null pointer dereferences it

---
 include/rapidcheck/Show.hpp | 4 ++++
 src/Show.cpp                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index b3fe559..a83aee9 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -63,6 +63,10 @@ void showValue(const char *value, std::ostream &os);
 
 template <typename T>
 void showValue(T *p, std::ostream &os) {
+  if (!p) {
+    os << "nullptr";
+    return;
+  }
   show(*p, os);
   auto flags = os.flags();
   os << " (" << std::hex << std::showbase << p << ")";
diff --git a/src/Show.cpp b/src/Show.cpp
index 323448e..612e9db 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -63,6 +63,10 @@ void showValue(const std::string &value, std::ostream &os) {
 }
 
 void showValue(const char *value, std::ostream &os) {
+  if (!value) {
+    os << "nullptr";
+    return;
+  }
   show(std::string(value), os);
 }
 
-- 
2.43.0

