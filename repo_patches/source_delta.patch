From 4a95f11c4cbdefde35a0f34e1ea4104f86c160b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 01/18] fix: don't release the data of a mem::ptr before having
 acquired the new one

Assigning a handle to itself, or from a handle stored inside the diagram or
homomorphism it solely owns, read the new data after it had been freed.
---
 sdd/mem/ptr.hh | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/sdd/mem/ptr.hh b/sdd/mem/ptr.hh
index 9594e20..9f9c542 100644
--- a/sdd/mem/ptr.hh
+++ b/sdd/mem/ptr.hh
@@ -9,6 +9,7 @@
 #include <cassert>
 #include <functional>  // hash, function
 #include <type_traits> // remove_const
+#include <utility>     // move, swap
 
 #include "sdd/mem/unique_table.hh"
 #include "sdd/util/hash.hh"
@@ -97,16 +98,10 @@ public:
   noexcept
   {
     assert(other.x_ != nullptr); // Don't copy from an already moved ptr.
-    if (x_ != nullptr)
-    {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
-      {
-        deletion_handler<Unique>()(x_);
-      }
-    }
-    x_ = other.x_;
-    x_->increment_reference_counter();
+    // Reference the new data before releasing the old one: other might be *this, or it might be
+    // kept alive only by the old data.
+    ptr tmp(other);
+    swap(*this, tmp);
     return *this;
   }
 
@@ -123,16 +118,10 @@ public:
   operator=(ptr&& other)
   noexcept
   {
-    if (x_ != nullptr)
-    {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
-      {
-        deletion_handler<Unique>()(x_);
-      }
-    }
-    x_ = other.x_;
-    other.x_ = nullptr;
+    // Take the new data before releasing the old one: other might be *this, or it might be owned by
+    // the old data.
+    ptr tmp(std::move(other));
+    swap(*this, tmp);
     return *this;
   }
 
-- 
2.43.0


From a6ebb7a66bb977dc3be9a08596ae0abeba60a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 02/18] fix: empty the LRU list when a cache is cleared

The list kept pointers to destroyed entries, which were destroyed a second time
when the cache became full again.
---
 sdd/mem/cache.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index e37a761..74aad60 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -270,6 +270,7 @@ public:
                                 x->~cache_entry_type();
                                 pool_.deallocate(x);
                               });
+    lru_list_.clear();
   }
 
   /// @brief Get the number of cached operations.
-- 
2.43.0


From 6d44ccd7cbf3970804c60554728423c4bcaee893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 03/18] fix: don't lose a cache entry when the LRU list can't
 grow

The entry was constructed in the pool before the insertion in the LRU list, which
may throw. It was then neither in the table nor in the list: its operands were
never released, and the pool ended up being exhausted.
---
 sdd/mem/cache.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index 74aad60..99aaab4 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -235,9 +235,12 @@ public:
 
     ++stats_.misses;
 
-    cache_entry_type* entry;
     auto res = op(cxt_); // evaluation may throw
 
+    // Get a place at the end of the LRU list for the new cache entry. It's done before touching
+    // anything else as it may throw.
+    const auto lru_it = lru_list_.insert(lru_list_.end(), nullptr);
+
     // Clean up the cache, if necessary.
     if (set_.size() == max_size_)
     {
@@ -249,10 +252,9 @@ public:
       ++stats_.discarded;
     }
 
-    entry = new (pool_.allocate()) cache_entry_type(std::move(op), std::move(res));
-
-    // Add the new cache entry to the end of the LRU list.
-    entry->lru_cit_ = lru_list_.insert(lru_list_.end(), entry);
+    auto entry = new (pool_.allocate()) cache_entry_type(std::move(op), std::move(res));
+    *lru_it = entry;
+    entry->lru_cit_ = lru_it;
 
     // Finally, set the result associated to op.
     set_.insert_commit(entry, commit_data); // doesn't throw
-- 
2.43.0


From 51c1b37bce32f4c2255e22ec298ca6272007c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 04/18] fix: a hash table that can't be rehashed is not an
 error

The exception was thrown after the insertion, leaving in the unicity table a data
which nobody references and thus never erased.
---
 sdd/mem/hash_table.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sdd/mem/hash_table.hh b/sdd/mem/hash_table.hh
index 1b55f4c..bb14f67 100644
--- a/sdd/mem/hash_table.hh
+++ b/sdd/mem/hash_table.hh
@@ -10,6 +10,7 @@
 #include <cassert>
 #include <functional>  // hash
 #include <memory>      // unique_ptr
+#include <new>         // nothrow
 #include <tuple>
 #include <type_traits> // enable_if
 #include <utility>     // make_pair, pair
@@ -253,9 +254,15 @@ private:
     {
       return;
     }
-    ++nb_rehash_;
     auto new_nb_buckets = nb_buckets_ * 2;
-    auto new_buckets = new Data*[new_nb_buckets];
+    auto new_buckets = new (std::nothrow) Data*[new_nb_buckets];
+    if (new_buckets == nullptr)
+    {
+      // The data has already been inserted, so we can't fail from here. The next insertion will try
+      // again to rehash.
+      return;
+    }
+    ++nb_rehash_;
     std::fill(new_buckets, new_buckets + new_nb_buckets, nullptr);
     size_ = 0;
     for (std::size_t i = 0; i < nb_buckets_; ++i)
-- 
2.43.0


From 4c0d3dd35ec9d8efd0fb129ad8bd603f1963df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 05/18] fix: release the memory of a homomorphism whose
 construction fails

Constructing a homomorphism from a user's function allocates memory: when it
throws, the memory got from the unicity table was lost.
---
 sdd/hom/definition.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdd/hom/definition.hh b/sdd/hom/definition.hh
index 3e0317f..54a4e34 100644
--- a/sdd/hom/definition.hh
+++ b/sdd/hom/definition.hh
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <iosfwd>
+#include <memory> // unique_ptr
 
 #include "sdd/internal_manager_fwd.hh"
 #include "sdd/dd/definition.hh"
@@ -261,8 +262,10 @@ make_variable_size(std::size_t extra_bytes, Args&&... args)
   using unique_type = typename homomorphism<C>::unique_type;
   using ptr_type = typename homomorphism<C>::ptr_type;
   auto& ut = global<C>().hom_unique_table;
-  char* addr = ut.allocate(extra_bytes);
-  unique_type* u = new (addr) unique_type(mem::construct<T>(), std::forward<Args>(args)...);
+  // Owns the memory until the construction of the homomorphism, which may throw, is done.
+  std::unique_ptr<char[]> addr(ut.allocate(extra_bytes));
+  unique_type* u = new (addr.get()) unique_type(mem::construct<T>(), std::forward<Args>(args)...);
+  addr.release();
   return {ptr_type(&ut(u, extra_bytes))};
 }
 
-- 
2.43.0


From 1b28a33b93820af4600e9b0582fcfa631079254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:57 +0000
Subject: [PATCH 06/18] fix: refuse to share the values of an initialized
 configuration, survive a failed init

init() looked for the internal manager of the values' type, which never exists,
instead of its values manager: initializing a second configuration with the same
stateful values replaced the state used by the first one. Also, global pointers
were set before knowing if the initialization succeeds: when it failed, they were
left dangling and the library was reported as being already initialized.
---
 sdd/manager.hh | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 2fe1bc8..6109f72 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,15 +36,22 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_ptr<values_type>() == nullptr)
+  // The state of values, if any, can't be shared by several configurations.
+  const bool values_in_use =  values::values_traits<values_type>::stateful
+                          and *global_values_ptr<values_type>() != nullptr;
+  if (*global_ptr<C>() == nullptr and not values_in_use)
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
-    *global_values_ptr<values_type>() = vm_ptr.get();
-
     auto im_ptr = std::make_unique<internal_manager<C>>(configuration);
-    *global_ptr<C>() = im_ptr.get();
+    auto vm = vm_ptr.get();
+    auto im = im_ptr.get();
+    auto impl = std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
+
+    // Nothing can fail from here: publish the managers.
+    *global_values_ptr<values_type>() = vm;
+    *global_ptr<C>() = im;
 
-    return std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
+    return impl;
   }
   else
   {
-- 
2.43.0


From 6372c9076ef63ed357ec063131bc71992bbac33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 07/18] fix: flat_set::insert() returned an iterator on a
 destroyed set

---
 sdd/values/flat_set.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/values/flat_set.hh b/sdd/values/flat_set.hh
index 158caba..ef52703 100644
--- a/sdd/values/flat_set.hh
+++ b/sdd/values/flat_set.hh
@@ -96,7 +96,8 @@ public:
       fs.shrink_to_fit();
       ptr_ = create(std::move(fs));
     }
-    return insertion;
+    // fs is local: return an iterator on the unified data.
+    return {ptr_->data().find(x), insertion.second};
   }
 
   /// @brief Returns an iterator pointing to the first element in the flat set.
-- 
2.43.0


From 2a37c1f4a64e7458eb2ac8c77857036834f2c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:20 +0000
Subject: [PATCH 08/18] fix: functions which allocate memory can't be noexcept

They called std::terminate() when they ran out of memory, instead of letting
std::bad_alloc reach the caller.
---
 sdd/hom/fixpoint.hh           | 2 +-
 sdd/mem/linear_alloc.hh       | 1 -
 sdd/tools/dot/homomorphism.hh | 1 -
 sdd/values/flat_set.hh        | 3 ---
 4 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/sdd/hom/fixpoint.hh b/sdd/hom/fixpoint.hh
index 180adc4..0719f80 100644
--- a/sdd/hom/fixpoint.hh
+++ b/sdd/hom/fixpoint.hh
@@ -105,7 +105,7 @@ struct fixpoint_builder
   template <typename T>
   homomorphism<C>
   operator()(const T&, const homomorphism<C>& h)
-  const noexcept
+  const
   {
     return hom::make<C, _fixpoint<C>>(h);
   }
diff --git a/sdd/mem/linear_alloc.hh b/sdd/mem/linear_alloc.hh
index b0c3948..ed44c0e 100644
--- a/sdd/mem/linear_alloc.hh
+++ b/sdd/mem/linear_alloc.hh
@@ -50,7 +50,6 @@ public:
 
   /// @brief Construct an arena with a given size.
   arena(std::size_t size)
-  noexcept
     : size_(size)
     , buffer_(std::make_unique<char[]>(size_))
     , position_(buffer_.get())
diff --git a/sdd/tools/dot/homomorphism.hh b/sdd/tools/dot/homomorphism.hh
index 9ece691..03f607f 100644
--- a/sdd/tools/dot/homomorphism.hh
+++ b/sdd/tools/dot/homomorphism.hh
@@ -178,7 +178,6 @@ private:
   static
   std::string
   node(const std::string& prefix, const void* addr)
-  noexcept
   {
     std::ostringstream oss;
     oss << prefix << addr;
diff --git a/sdd/values/flat_set.hh b/sdd/values/flat_set.hh
index ef52703..becc162 100644
--- a/sdd/values/flat_set.hh
+++ b/sdd/values/flat_set.hh
@@ -477,7 +477,6 @@ template <typename Value>
 inline
 flat_set<Value>
 difference(const flat_set<Value>& lhs, const flat_set<Value>& rhs)
-noexcept
 {
   typename flat_set<Value>::data_type res;
   std::set_difference( lhs.cbegin(), lhs.cend(), rhs.cbegin(), rhs.cend()
@@ -492,7 +491,6 @@ template <typename Value>
 inline
 flat_set<Value>
 intersection(const flat_set<Value>& lhs, const flat_set<Value>& rhs)
-noexcept
 {
   typename flat_set<Value>::data_type res;
   std::set_intersection( lhs.cbegin(), lhs.cend(), rhs.cbegin(), rhs.cend()
@@ -507,7 +505,6 @@ template <typename Value>
 inline
 flat_set<Value>
 sum(const flat_set<Value>& lhs, const flat_set<Value>& rhs)
-noexcept
 {
   typename flat_set<Value>::data_type res;
   std::set_union( lhs.cbegin(), lhs.cend(), rhs.cbegin(), rhs.cend()
-- 
2.43.0


From 2e4ea4a6060d8ad35d5ddc016ef9370517489e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 09/18] fix: don't mistake memory that directly follows an
 arena for memory of this arena

Such memory, got from the default allocator when the arena is full, was never
released.
---
 sdd/mem/linear_alloc.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdd/mem/linear_alloc.hh b/sdd/mem/linear_alloc.hh
index ed44c0e..f2c17b1 100644
--- a/sdd/mem/linear_alloc.hh
+++ b/sdd/mem/linear_alloc.hh
@@ -51,7 +51,7 @@ public:
   /// @brief Construct an arena with a given size.
   arena(std::size_t size)
     : size_(size)
-    , buffer_(std::make_unique<char[]>(size_))
+    , buffer_(std::make_unique<char[]>(size_ + 1)) // see pointer_in_buffer()
     , position_(buffer_.get())
 #ifndef NDEBUG
     , active_(0)
@@ -160,6 +160,11 @@ public:
 
 private:
 
+  /// @brief Tell if a pointer lies in the memory buffer.
+  ///
+  /// The end of the arena is a valid position. The buffer has one more byte than the arena to make
+  /// sure that memory got from the default allocator never starts there: otherwise, deallocate()
+  /// would take it for memory of this arena and would never release it.
   bool
   pointer_in_buffer(char* p)
   const noexcept
-- 
2.43.0


From b003aa39bf3a30d991b557ffaaf834e2b40b3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:00 +0000
Subject: [PATCH 10/18] fix: a cache might unlink an entry and destroy another
 one

When a user's function applies homomorphisms, an operation can be inserted in the
cache while this same operation is being evaluated. The table then contains two
equal entries and erase() could unlink the wrong one, leaving in the table an entry
which has been destroyed.
---
 sdd/mem/hash_table.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdd/mem/hash_table.hh b/sdd/mem/hash_table.hh
index bb14f67..ef8b4bd 100644
--- a/sdd/mem/hash_table.hh
+++ b/sdd/mem/hash_table.hh
@@ -157,7 +157,10 @@ public:
     return nb_buckets_;
   }
 
-  /// @brief Remove an element given its value.
+  /// @brief Remove an element, which must be stored in this table.
+  ///
+  /// Elements are compared by address: a table filled with insert_check()/insert_commit() might
+  /// contain an element equal to x, when x has been inserted between these two calls.
   void
   erase(const Data* x)
   noexcept
@@ -167,7 +170,7 @@ public:
     Data* current = buckets_[pos];
     while (current != nullptr)
     {
-      if (*x == *current)
+      if (x == current)
       {
         if (previous == nullptr) // first element in bucket
         {
-- 
2.43.0


From 21eda67c57a15d067ec71856d8de78b2866c1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 11/18] fix: release the diagram of an enumeration which can't
 start

Boost.Coroutine doesn't destroy the function of a coroutine which throws while its
generator is being constructed: the diagram was never released.
---
 sdd/dd/path_generator.hh     | 18 ++++++++++++++----
 sdd/dd/path_generator_fwd.hh |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/sdd/dd/path_generator.hh b/sdd/dd/path_generator.hh
index 05aedd8..be1e59f 100644
--- a/sdd/dd/path_generator.hh
+++ b/sdd/dd/path_generator.hh
@@ -76,11 +76,21 @@ struct paths_visitor
 /// @internal
 template <typename C>
 void
-paths(path_push_type<C>& yield, const SDD<C>& s)
+paths(path_push_type<C>& yield, SDD<C>& s)
 {
-  path<C> tmp;
-  tmp.reserve(512);
-  visit(paths_visitor<C>{yield}, s, std::make_shared<path<C>>(std::move(tmp)), nullptr);
+  try
+  {
+    path<C> tmp;
+    tmp.reserve(512);
+    visit(paths_visitor<C>{yield}, s, std::make_shared<path<C>>(std::move(tmp)), nullptr);
+  }
+  catch (...)
+  {
+    // When an exception is thrown before the first path is generated, thus by the constructor of the
+    // generator, Boost.Coroutine never destroys the coroutine's function, which owns s.
+    const SDD<C> released(std::move(s));
+    throw;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/sdd/dd/path_generator_fwd.hh b/sdd/dd/path_generator_fwd.hh
index 36517ce..b1300c2 100644
--- a/sdd/dd/path_generator_fwd.hh
+++ b/sdd/dd/path_generator_fwd.hh
@@ -55,7 +55,7 @@ namespace dd {
 /// @internal
 template <typename C>
 void
-paths(path_push_type<C>&, const SDD<C>&);
+paths(path_push_type<C>&, SDD<C>&);
 
 /*------------------------------------------------------------------------------------------------*/
 
-- 
2.43.0


From f0aaf6c0a11bd9f0d5104624494294a7495e62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 12/18] fix: FORCE returns the order with the smallest span,
 not the last one computed

---
 sdd/order/strategies/force.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force.hh b/sdd/order/strategies/force.hh
index 59e5463..f44d447 100644
--- a/sdd/order/strategies/force.hh
+++ b/sdd/order/strategies/force.hh
@@ -60,7 +60,7 @@ public:
 
     // Keep a copy of the order with the smallest span.
     auto best_order = std::vector<std::reference_wrapper<vertex_type>>{sorted_vertices};
-    const auto smallest_span = std::numeric_limits<double>::max();
+    auto smallest_span = std::numeric_limits<double>::max();
 
     while (iterations-- != 0)
     {
@@ -100,6 +100,7 @@ public:
       {
         // We keep the order that minimizes the span.
         best_order = sorted_vertices;
+        smallest_span = span;
       }
     }
 
-- 
2.43.0


From b8badd212ad809a85f037086b55e5a001e06ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 13/18] fix: FORCE's initial locations do not depend on
 hypergraphs built earlier

---
 sdd/order/strategies/force_hypergraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force_hypergraph.hh b/sdd/order/strategies/force_hypergraph.hh
index ef9f7a8..c8a7aae 100644
--- a/sdd/order/strategies/force_hypergraph.hh
+++ b/sdd/order/strategies/force_hypergraph.hh
@@ -60,7 +60,7 @@ public:
     , hyperedges_ptr_(std::make_shared<std::deque<hyperedge_type>>())
     , id_to_vertex_ptr_(std::make_shared<std::unordered_map<identifier_type, vertex_type*>>())
   {
-    static double location = 0;
+    double location = 0;
     assert(it != end);
     for (; it != end; ++it)
     {
-- 
2.43.0


From 2f59b57d6f53e0491e4a19036513f9a99ab90bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:11 +0000
Subject: [PATCH 14/18] fix: adding a hyperedge which fails leaves the
 hypergraph unchanged

---
 sdd/order/strategies/force_hypergraph.hh | 26 ++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/sdd/order/strategies/force_hypergraph.hh b/sdd/order/strategies/force_hypergraph.hh
index c8a7aae..a1898a3 100644
--- a/sdd/order/strategies/force_hypergraph.hh
+++ b/sdd/order/strategies/force_hypergraph.hh
@@ -101,11 +101,29 @@ public:
     hyperedges_ptr_->emplace_back(weight, std::move(vertices));
 
     // Update connected vertices.
-    assert(hyperedges_ptr_->back().vertices().size() != 0);
-    for (auto vertex_ptr : hyperedges_ptr_->back().vertices())
+    auto& edge = hyperedges_ptr_->back();
+    assert(edge.vertices().size() != 0);
+    try
     {
-      assert(vertex_ptr != nullptr);
-      vertex_ptr->hyperedges().emplace_back(&hyperedges_ptr_->back());
+      for (auto vertex_ptr : edge.vertices())
+      {
+        assert(vertex_ptr != nullptr);
+        vertex_ptr->hyperedges().emplace_back(&edge);
+      }
+    }
+    catch (...)
+    {
+      // Don't leave a partially connected hyperedge.
+      for (auto vertex_ptr : edge.vertices())
+      {
+        auto& edges = vertex_ptr->hyperedges();
+        while (not edges.empty() and edges.back() == &edge)
+        {
+          edges.pop_back();
+        }
+      }
+      hyperedges_ptr_->pop_back();
+      throw;
     }
   }
 
-- 
2.43.0


From 20b72abc0d90895f9d7f72ec8ac5f7d5634ab5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:59 +0000
Subject: [PATCH 15/18] fix: a cache configured for a single entry holds a
 single entry

Its maximal size was computed as 0, so that a pool of no entry was created and written to.
---
 sdd/mem/cache.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index 99aaab4..1271ea3 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -6,7 +6,8 @@
 
 #pragma once
 
-#include <memory> // unique_ptr
+#include <algorithm> // max
+#include <memory>    // unique_ptr
 #include <tuple>
 
 #include "sdd/mem/cache_entry.hh"
@@ -196,7 +197,7 @@ public:
     : cxt_(context)
     , set_(size, max_load_factor)
     , lru_list_()
-    , max_size_(set_.bucket_count() * max_load_factor)
+    , max_size_(std::max<std::size_t>(1, set_.bucket_count() * max_load_factor))
     , stats_()
     , pool_(max_size_)
   {}
-- 
2.43.0


From 6295681ad1dbbd12a0bf6ebf67f5dc4bf387c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:59 +0000
Subject: [PATCH 16/18] fix: a hash table configured with a size of 0 has at
 least one bucket

Without any bucket, every access was done out of bounds.
---
 sdd/mem/hash_table.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdd/mem/hash_table.hh b/sdd/mem/hash_table.hh
index ef8b4bd..971d49d 100644
--- a/sdd/mem/hash_table.hh
+++ b/sdd/mem/hash_table.hh
@@ -6,7 +6,7 @@
 
 #pragma once
 
-#include <algorithm>   // fill
+#include <algorithm>   // fill, max
 #include <cassert>
 #include <functional>  // hash
 #include <memory>      // unique_ptr
@@ -69,7 +69,7 @@ private:
 public:
 
   hash_table(std::size_t size, double max_load_factor = 0.75)
-    : nb_buckets_(util::next_power_of_2(size))
+    : nb_buckets_(util::next_power_of_2(std::max<std::size_t>(1, size)))
     , size_(0)
     , buckets_(std::make_unique<Data*[]>(nb_buckets_))
     , max_load_factor_(max_load_factor)
-- 
2.43.0


From ceddec217a910430d3e6a615df9429699541c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 17/18] fix: sets of values of more than 64 bits can be
 compared and hashed

Converting them to an unsigned long threw from noexcept functions as soon as they contained a large value.
---
 sdd/values/bitset.hh | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sdd/values/bitset.hh b/sdd/values/bitset.hh
index 30478c2..c66a84b 100644
--- a/sdd/values/bitset.hh
+++ b/sdd/values/bitset.hh
@@ -78,7 +78,18 @@ public:
   operator<(const bitset& lhs, const bitset& rhs)
   noexcept
   {
-    return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    // The highest value contained by only one of the two sets makes the difference.
+    const auto diff = lhs.content_ ^ rhs.content_;
+    if (diff.none())
+    {
+      return false;
+    }
+    auto pos = Size - 1;
+    while (not diff[pos])
+    {
+      --pos;
+    }
+    return rhs.content_[pos];
   }
 
   bitset&
@@ -214,7 +225,7 @@ struct hash<sdd::values::bitset<Size>>
   operator()(const sdd::values::bitset<Size>& b)
   const noexcept
   {
-    return sdd::hash::seed(b.content_.to_ulong());
+    return sdd::hash::seed(b.content_);
   }
 };
   
-- 
2.43.0


From 94905542c5d12ca06765011a6ea95b90c27f225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:29 +0000
Subject: [PATCH 18/18] fix: equal orders have the same hash

std::hash<order> hashed addresses, whereas == compares the contents. Two cons operations
built from equal orders were unified or not depending on where the orders were stored.
---
 sdd/order/order.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 819fd1f..7a745dc 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -365,7 +365,8 @@ struct hash<sdd::order<C>>
   const noexcept
   {
     using namespace sdd::hash;
-    return seed(o.nodes_ptr_.get()) (val(o.head_));
+    // Equal orders, even when built separately, must have the same hash.
+    return o.empty() ? seed() : seed(o.position()) (val(o.identifier()));
   }
 };
 
-- 
2.43.0

