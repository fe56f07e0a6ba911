From f2bca209d5ef78b18dc6c91c03c93448a8ffdb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 01/58] fix: count a strategy's internal allocations only once
 they have succeeded

---
 src/umpire/strategy/AllocationStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index e11504a..c94bd96 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -19,6 +19,8 @@ AllocationStrategy::AllocationStrategy(const std::string& name, int id, Allocati
 
 void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
+  void* ptr = allocate(bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -26,7 +28,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
     m_high_watermark = m_current_size;
   }
 
-  return allocate(bytes);
+  return ptr;
 }
 
 void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(name), std::size_t bytes)
@@ -36,6 +38,8 @@ void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(na
 
 void* AllocationStrategy::allocate_named_internal(const std::string& name, std::size_t bytes)
 {
+  void* ptr = allocate_named(name, bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -43,7 +47,7 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
     m_high_watermark = m_current_size;
   }
 
-  return allocate_named(name, bytes);
+  return ptr;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
-- 
2.43.0


From cbf131b34bd1cfba37072e42f1b220df70a00f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 02/58] fix: NamingShim forwards the size of a deallocation to
 its parent

---
 src/umpire/strategy/NamingShim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/NamingShim.cpp b/src/umpire/strategy/NamingShim.cpp
index 1a9dfb0..812abfe 100644
--- a/src/umpire/strategy/NamingShim.cpp
+++ b/src/umpire/strategy/NamingShim.cpp
@@ -30,9 +30,9 @@ void* NamingShim::allocate(std::size_t bytes)
   return m_allocator->allocate_named_internal(name, bytes);
 }
 
-void NamingShim::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
+void NamingShim::deallocate(void* ptr, std::size_t size)
 {
-  m_allocator->deallocate_internal(ptr);
+  m_allocator->deallocate_internal(ptr, size);
 }
 
 Platform NamingShim::getPlatform() noexcept
-- 
2.43.0


From b5267850f32881c771a7e8dc492d5bfb7634b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 03/58] fix: FixedPool::release subtracts the released blocks
 from the actual size

---
 src/umpire/strategy/FixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 9c080d0..7eb40df 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -180,6 +180,7 @@ void FixedPool::release()
     if (m_obj_per_pool == p.num_avail) {
       p.strategy->deallocate_internal(p.data, m_data_bytes);
       std::free(p.avail);
+      m_actual_bytes -= m_avail_bytes + m_data_bytes;
     }
   }
   m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
-- 
2.43.0


From 4d2fb5465111f875c7725d4538f2a917d6e2c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 04/58] fix: SlotPool refuses a request it has no slot for and
 keeps slots intact when its parent fails

---
 src/umpire/strategy/SlotPool.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index 712236a..12868e1 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -35,7 +35,7 @@ SlotPool::~SlotPool()
 {
   for (std::size_t i = 0; i < m_slots; ++i) {
     if (m_pointers[i]) {
-      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i]);
+      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i] < 0 ? -m_lengths[i] : m_lengths[i]);
       m_pointers[i] = nullptr;
       m_lengths[i] = 0;
     }
@@ -60,13 +60,17 @@ void* SlotPool::allocate(std::size_t bytes)
       ptr = m_pointers[i];
       break;
     } else if (m_lengths[i] == 0) {
-      m_lengths[i] = -int_bytes;
       m_pointers[i] = m_allocator->allocate_internal(bytes);
+      m_lengths[i] = -int_bytes;
       ptr = m_pointers[i];
       break;
     }
   }
 
+  if (!ptr) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("No slot available for allocation request of size: {}", bytes));
+  }
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
   return ptr;
 }
-- 
2.43.0


From 0d3b91d466c6b0b50f6e8a75e84b23c98a4dad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 05/58] fix: MonotonicAllocationStrategy keeps its size when it
 refuses a request

---
 src/umpire/strategy/MonotonicAllocationStrategy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/MonotonicAllocationStrategy.cpp b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
index af3bab6..b57f2e0 100644
--- a/src/umpire/strategy/MonotonicAllocationStrategy.cpp
+++ b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
@@ -30,14 +30,14 @@ MonotonicAllocationStrategy::~MonotonicAllocationStrategy()
 
 void* MonotonicAllocationStrategy::allocate(std::size_t bytes)
 {
+  if (bytes > m_capacity - m_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("MonotonicAllocationStrategy capacity exceeded {} + {} > {}", m_size, bytes,
+                                            m_capacity));
+  }
+
   void* ret = static_cast<char*>(m_block) + m_size;
   m_size += bytes;
 
-  if (m_size > m_capacity) {
-    UMPIRE_ERROR(runtime_error,
-                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size, m_capacity));
-  }
-
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
   return ret;
-- 
2.43.0


From cd6089c88b9e7bb7b005ba9154acd7b7ad60fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 06/58] fix: SizeLimiter charges only allocations that succeed
 and cannot wrap

---
 src/umpire/strategy/SizeLimiter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/SizeLimiter.cpp b/src/umpire/strategy/SizeLimiter.cpp
index 9187b50..eb4630b 100644
--- a/src/umpire/strategy/SizeLimiter.cpp
+++ b/src/umpire/strategy/SizeLimiter.cpp
@@ -22,14 +22,14 @@ SizeLimiter::SizeLimiter(const std::string& name, int id, Allocator allocator, s
 
 void* SizeLimiter::allocate(std::size_t bytes)
 {
-  m_total_size += bytes;
-
-  if (m_total_size > m_size_limit) {
-    m_total_size -= bytes;
+  if (bytes > m_size_limit - m_total_size) {
     UMPIRE_ERROR(out_of_memory_error, "Size limit exceeded.");
   }
 
-  return m_allocator->allocate_internal(bytes);
+  void* ptr = m_allocator->allocate_internal(bytes);
+  m_total_size += bytes;
+
+  return ptr;
 }
 
 void SizeLimiter::deallocate(void* ptr, std::size_t size)
-- 
2.43.0


From 61d2cdd18e4394ff8fa6add2502c4f2fe3f2bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 07/58] fix: a refused named allocation reports its size and
 allocator id

---
 src/umpire/Allocator.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/Allocator.inl b/src/umpire/Allocator.inl
index 1b3e7c7..c8e4038 100644
--- a/src/umpire/Allocator.inl
+++ b/src/umpire/Allocator.inl
@@ -76,7 +76,13 @@ inline void* Allocator::do_named_allocate(const std::string& name, std::size_t b
   if (0 == bytes) {
     ret = allocateNull();
   } else {
-    ret = m_allocator->allocate_named(name, bytes);
+    try {
+      ret = m_allocator->allocate_named(name, bytes);
+    } catch (umpire::out_of_memory_error& e) {
+      e.set_allocator_id(this->getId());
+      e.set_requested_size(bytes);
+      throw;
+    }
   }
 
   if (m_tracking) {
-- 
2.43.0


From f73a653a0b58620b115780a5d17bb7c34950956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:01 +0000
Subject: [PATCH 08/58] fix: FixedPool and MixedPool constructors report a
 failing parent instead of terminating

---
 src/umpire/strategy/FixedPool.cpp | 2 +-
 src/umpire/strategy/FixedPool.hpp | 2 +-
 src/umpire/strategy/MixedPool.cpp | 2 +-
 src/umpire/strategy/MixedPool.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 7eb40df..4249ef3 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -38,7 +38,7 @@ FixedPool::Pool::Pool(AllocationStrategy* allocation_strategy, const std::size_t
 }
 
 FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-                     const std::size_t objects_per_pool) noexcept
+                     const std::size_t objects_per_pool)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "FixedPool"},
       m_strategy{allocator.getAllocationStrategy()},
       m_obj_bytes{object_bytes},
diff --git a/src/umpire/strategy/FixedPool.hpp b/src/umpire/strategy/FixedPool.hpp
index cd9d3ce..1021b56 100644
--- a/src/umpire/strategy/FixedPool.hpp
+++ b/src/umpire/strategy/FixedPool.hpp
@@ -39,7 +39,7 @@ class FixedPool : public AllocationStrategy {
    * if so.
    */
   FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-            const std::size_t objects_per_pool = 64 * sizeof(int) * 8) noexcept;
+            const std::size_t objects_per_pool = 64 * sizeof(int) * 8);
 
   ~FixedPool();
 
diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index 020d0b5..adba672 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -22,7 +22,7 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
                      std::size_t largest_fixed_obj_size, std::size_t max_initial_fixed_pool_size,
                      std::size_t fixed_size_multiplier, const std::size_t quick_pool_initial_alloc_size,
                      const std::size_t quick_pool_min_alloc_size, const std::size_t quick_pool_align_bytes,
-                     PoolCoalesceHeuristic<QuickPool> should_coalesce) noexcept
+                     PoolCoalesceHeuristic<QuickPool> should_coalesce)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "MixedPool"},
       m_map{},
       m_fixed_pool_map{},
diff --git a/src/umpire/strategy/MixedPool.hpp b/src/umpire/strategy/MixedPool.hpp
index 8f9bc5c..d5bbc1f 100644
--- a/src/umpire/strategy/MixedPool.hpp
+++ b/src/umpire/strategy/MixedPool.hpp
@@ -53,7 +53,7 @@ class MixedPool : public AllocationStrategy {
             const std::size_t quick_pool_initial_alloc_size = (512 * 1024 * 1024),
             const std::size_t quick_pool_min_alloc_size = (1 * 1024 * 1024),
             const std::size_t quick_pool_align_bytes = 16,
-            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100)) noexcept;
+            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100));
 
   void* allocate(std::size_t bytes) override;
   void deallocate(void* ptr, std::size_t size) override;
-- 
2.43.0


From 450fd5d10202aca24d70776704e2fcfadfec0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:01 +0000
Subject: [PATCH 09/58] fix: aligned allocation refuses sizes whose padding
 overflows

---
 src/umpire/strategy/AlignedAllocator.cpp         |  5 +++++
 src/umpire/strategy/mixins/AlignedAllocation.inl | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/AlignedAllocator.cpp b/src/umpire/strategy/AlignedAllocator.cpp
index cfaaf2c..b04f7d6 100644
--- a/src/umpire/strategy/AlignedAllocator.cpp
+++ b/src/umpire/strategy/AlignedAllocator.cpp
@@ -7,6 +7,7 @@
 #include "umpire/strategy/AlignedAllocator.hpp"
 
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -33,6 +34,10 @@ void* AlignedAllocator::allocate(std::size_t bytes)
   std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
   UMPIRE_LOG(Debug, "requested: " << bytes << " actual: " << bytes + m_alignment - 1);
 
+  if (total_bytes < bytes) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot allocate {} bytes aligned to {}", bytes, m_alignment));
+  }
+
   uintptr_t ptr{reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes))};
   uintptr_t aligned_ptr{static_cast<uintptr_t>((ptr + sizeof(void*) + (m_alignment - 1)) & m_mask)};
   uintptr_t* header = (uintptr_t*)(aligned_ptr - sizeof(void*));
diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 2e1b71d..05e5557 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -10,6 +10,7 @@
 #include "umpire/util/allocation_statistics.hpp"
 #include "umpire/util/memory_sanitizers.hpp"
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -17,12 +18,23 @@ namespace mixins {
 
 inline std::size_t AlignedAllocation::aligned_round_up(std::size_t size)
 {
-  return size + (m_alignment - 1) - (size - 1) % m_alignment;
+  const std::size_t rounded{ size + (m_alignment - 1) - (size - 1) % m_alignment };
+
+  if (rounded < size) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot round {} up to a multiple of {}", size, m_alignment));
+  }
+
+  return rounded;
 }
 
 inline void* AlignedAllocation::aligned_allocate(std::size_t size)
 {
   std::size_t total_bytes{ size + m_alignment };
+
+  if (total_bytes < size) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot allocate {} bytes aligned to {}", size, m_alignment));
+  }
+
   uintptr_t ptr{ reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes)) };
 
   UMPIRE_POISON_MEMORY_REGION(m_allocator, reinterpret_cast<void*>(ptr), total_bytes);
-- 
2.43.0


From a174859a44d694319f976e7a7bc5c2f46a77724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:01 +0000
Subject: [PATCH 10/58] fix: a pool survives its parent refusing the block
 wanted for coalescing

---
 src/umpire/strategy/DynamicSizePool.hpp | 8 +++++++-
 src/umpire/strategy/QuickPool.cpp       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index c99a5d2..ec67262 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -273,7 +273,13 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
     UMPIRE_LOG(Debug, "Allocator " << this << " coalescing to " << size << " bytes from " << getFreeBlocks()
                                    << " free blocks\n");
     freeReleasedBlocks();
-    void *ptr = allocate(size);
+    void *ptr{nullptr};
+    try {
+      ptr = allocate(size);
+    } catch (...) {
+      UMPIRE_LOG(Error, "Could not allocate " << size << " bytes, pool left without coalesced block");
+      return;
+    }
     deallocate(ptr);
   }
 
diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 7df4da9..a18d362 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -339,7 +339,13 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       std::size_t alloc_size{suggested_size - size_post};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-      auto ptr = allocate(alloc_size);
+      void* ptr{nullptr};
+      try {
+        ptr = allocate(alloc_size);
+      } catch (...) {
+        UMPIRE_LOG(Error, "Could not allocate " << alloc_size << " bytes, pool left without coalesced block");
+        return;
+      }
       deallocate(ptr, alloc_size);
     }
   }
-- 
2.43.0


From 8472940222cea659b9054951f63cf6266e1abd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:11 +0000
Subject: [PATCH 11/58] fix: QuickPool coalescing does not recurse without end
 when its heuristic stays true

---
 src/umpire/strategy/QuickPool.cpp | 5 ++++-
 src/umpire/strategy/QuickPool.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index a18d362..4e9e32b 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -330,7 +330,7 @@ void QuickPool::coalesce() noexcept
 
 void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
 {
-  if (m_size_map.size() > 1) {
+  if (!m_is_coalescing && m_size_map.size() > 1) {
     UMPIRE_LOG(Debug, "()");
     release();
     std::size_t size_post{getActualSize()};
@@ -346,7 +346,10 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
         UMPIRE_LOG(Error, "Could not allocate " << alloc_size << " bytes, pool left without coalesced block");
         return;
       }
+      // The heuristic may still ask for a coalesce once this block is free, do not repeat it
+      m_is_coalescing = true;
       deallocate(ptr, alloc_size);
+      m_is_coalescing = false;
     }
   }
 }
diff --git a/src/umpire/strategy/QuickPool.hpp b/src/umpire/strategy/QuickPool.hpp
index ee1b48e..c402199 100644
--- a/src/umpire/strategy/QuickPool.hpp
+++ b/src/umpire/strategy/QuickPool.hpp
@@ -170,6 +170,7 @@ class QuickPool : public AllocationStrategy, private mixins::AlignedAllocation {
   std::size_t m_releasable_bytes{0};
   std::size_t m_actual_highwatermark{0};
   bool m_is_destructing{false};
+  bool m_is_coalescing{false};
 };
 
 std::ostream& operator<<(std::ostream& out, umpire::strategy::PoolCoalesceHeuristic<QuickPool>&);
-- 
2.43.0


From 21138737b6755e96496ae13419d2b3df77a0ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 12/58] fix: ResourceManager::copy refuses to read past the end
 of its source

---
 src/umpire/ResourceManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ee58038..32ea2d2 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -405,6 +405,10 @@ void ResourceManager::copy(void* dst_ptr, void* src_ptr, std::size_t size)
         .tag("replay", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from a source of {} bytes", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error,
                  fmt::format("Not enough space in destination to copy {} bytes into {} bytes", size, dst_size));
@@ -451,6 +455,10 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::copy(voi
         .tag("async", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from a source of {} bytes", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));
   }
-- 
2.43.0


From 69df2231bd6c8b0d4cf037bfdbc30e7a42c382f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 13/58] fix: removeAlias of a resource that was not created yet
 is an error, not a read past the map

---
 src/umpire/ResourceManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 32ea2d2..09dc2be 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -300,7 +300,7 @@ void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
   }
 
   auto a = m_allocators_by_name.find(name);
-  if (a->second->getName().compare(name) == 0) {
+  if (a == m_allocators_by_name.end() || a->second->getName().compare(name) == 0) {
     UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
   }
 
-- 
2.43.0


From 5cdfbc34fcb66dffcdfd31f58f8030c686ebdfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 14/58] fix: makeResource registers device 0 under the whole
 base name

---
 src/umpire/ResourceManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 09dc2be..a480ebf 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -173,7 +173,7 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     m_allocators_by_name["DEVICE::0"] = allocator.get();
   }
   if (name.find("::0") != std::string::npos) {
-    std::string base_name{name.substr(0, name.find("::") - 1)};
+    std::string base_name{name.substr(0, name.find("::"))};
     m_allocators_by_name[base_name] = allocator.get();
   }
   if (name.find("::") == std::string::npos) {
-- 
2.43.0


From 61d9497968ec88f71f1320c74ed1b04015873a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 15/58] fix: a host reallocate that fails keeps the old
 allocation registered

---
 src/umpire/op/HostReallocateOperation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 76b39d4..8a407d6 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -36,6 +36,9 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     *new_ptr = ::realloc(current_ptr, new_size);
 
     if (!*new_ptr) {
+      // The old allocation is untouched: keep it known
+      ResourceManager::getInstance().registerAllocation(
+          current_ptr, {current_ptr, old_record.size, old_record.strategy, old_record.name});
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
-- 
2.43.0


From f5ac89d689188767daffde8476d6864f519abc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 16/58] fix: a host reallocate accounts for the change of size

---
 src/umpire/op/HostReallocateOperation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 8a407d6..1c24d6f 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -44,6 +44,13 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     }
 
     ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+
+    // The resized allocation still counts as one allocation, with its new size
+    auto strategy = new_allocation->strategy;
+    strategy->m_current_size = strategy->m_current_size - old_record.size + new_size;
+    if (strategy->m_current_size > strategy->m_high_watermark) {
+      strategy->m_high_watermark = strategy->m_current_size;
+    }
   }
 }
 
-- 
2.43.0


From c167b7769df80190c6984e1fb4381367e0fddbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 17/58] fix: find_pointer_from_name reports an allocator that
 is not shared memory

---
 src/umpire/Umpire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/Umpire.cpp b/src/umpire/Umpire.cpp
index 76297c3..9f0d06f 100644
--- a/src/umpire/Umpire.cpp
+++ b/src/umpire/Umpire.cpp
@@ -214,7 +214,7 @@ void* find_pointer_from_name(Allocator allocator, const std::string& name)
   auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
 
   umpire::resource::HostSharedMemoryResource* shared_resource =
-      reinterpret_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
+      dynamic_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
 
   if (shared_resource != nullptr) {
     ptr = shared_resource->find_pointer_from_name(name);
-- 
2.43.0


From a3d4d4d0616b8acfed9d79babaeb67258c3a8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 18/58] fix: TypedAllocator refuses a count whose size in bytes
 overflows

---
 src/umpire/TypedAllocator.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/TypedAllocator.inl b/src/umpire/TypedAllocator.inl
index 9db0e5c..61d6cb0 100644
--- a/src/umpire/TypedAllocator.inl
+++ b/src/umpire/TypedAllocator.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_TypedAllocator_INL
 #define UMPIRE_TypedAllocator_INL
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 
@@ -25,6 +28,10 @@ TypedAllocator<T>::TypedAllocator(const TypedAllocator<U>& other) : m_allocator(
 template <typename T>
 T* TypedAllocator<T>::allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("allocate( {} objects of {} bytes ) exceeds the address space", size,
+                                                  sizeof(T)));
+  }
   return static_cast<T*>(m_allocator.allocate(sizeof(T) * size));
 }
 
-- 
2.43.0


From dffa289470742db24bc242e535a88ed29119177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 19/58] fix: FixedMallocPool writes a free-list index that fits
 the freed object

---
 src/umpire/util/FixedMallocPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/FixedMallocPool.cpp b/src/umpire/util/FixedMallocPool.cpp
index f6070cb..a74597a 100644
--- a/src/umpire/util/FixedMallocPool.cpp
+++ b/src/umpire/util/FixedMallocPool.cpp
@@ -112,7 +112,7 @@ void FixedMallocPool::deallocate(void* ptr)
         *reinterpret_cast<unsigned int*>(ptr) = index_from_addr(p, p.next);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       } else {
-        *reinterpret_cast<std::size_t*>(ptr) = m_obj_per_pool;
+        *reinterpret_cast<unsigned int*>(ptr) = static_cast<unsigned int>(m_obj_per_pool);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       }
       ++p.num_free;
-- 
2.43.0


From 3cd99e2433770b8955044309a8728eb04d6d3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 20/58] fix: MemoryMap::insert of a const value reports whether
 it inserted

---
 src/umpire/util/MemoryMap.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4c461d8..1cc7242 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -70,10 +70,7 @@ std::pair<typename MemoryMap<V>::Iterator, bool> MemoryMap<V>::insert(Key ptr, c
 {
   UMPIRE_LOG(Debug, "ptr = " << ptr);
 
-  auto it_pair = doInsert(ptr, val);
-  it_pair.second = !it_pair.second;
-
-  return it_pair;
+  return doInsert(ptr, val);
 }
 
 template <typename V>
-- 
2.43.0


From 6eea17a7971f17f7135f66d19529f3a382386262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 21/58] fix: a MemoryMap iterator advances from its own
 position

---
 src/umpire/util/MemoryMap.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 1cc7242..71e2fa5 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -266,8 +266,8 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const>& MemoryMap<V>::Iterator_<Const>::operator++()
 {
-  // Check whether this object was not the last to set the internal judy state
-  if (m_pair.first && m_map->m_oper != reinterpret_cast<uintptr_t>(this)) {
+  // Copies and other operations may have moved the internal judy state, whatever object did so last
+  if (m_pair.first) {
     // Seek m_array internal position
     judy_slot(m_map->m_array, reinterpret_cast<const unsigned char*>(&m_pair.first), judy_max);
   }
-- 
2.43.0


From 4d4447dd0a17cdd9eaddd9515f3466435be40ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 22/58] fix: postfix increment of a MemoryMap const iterator
 compiles

---
 src/umpire/util/MemoryMap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 71e2fa5..2b4c476 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -290,7 +290,7 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const> MemoryMap<V>::Iterator_<Const>::operator++(int)
 {
-  Iterator tmp{*this};
+  Iterator_ tmp{*this};
   ++(*this);
   return tmp;
 }
-- 
2.43.0


From 3572073dfea96ffbd063cb786a42af516c46ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 23/58] fix: relative_fragmentation terminates, and accepts a
 list with no records

---
 src/umpire/util/allocation_statistics.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/util/allocation_statistics.cpp b/src/umpire/util/allocation_statistics.cpp
index 20f48b1..ca414e9 100644
--- a/src/umpire/util/allocation_statistics.cpp
+++ b/src/umpire/util/allocation_statistics.cpp
@@ -15,6 +15,10 @@ namespace util {
 
 float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
 {
+  if (recs.empty()) {
+    return 0.0f;
+  }
+
   auto r1 = recs.begin();
   auto r2 = recs.begin();
   ++r2;
@@ -24,6 +28,8 @@ float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
     const std::size_t free_space = reinterpret_cast<char*>(r2->ptr) - (reinterpret_cast<char*>(r1->ptr) + r1->size);
     largest_free_space = std::max(largest_free_space, free_space);
     total_free_space += free_space;
+    ++r1;
+    ++r2;
   }
 
   return 1.0f - static_cast<float>(largest_free_space) / (total_free_space + std::numeric_limits<float>::epsilon());
-- 
2.43.0


From e475c4fbab45542eeca5f2bd0ae527b82d09adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 24/58] fix: FileMemoryResource refuses a size that cannot be
 rounded up to whole pages

---
 src/umpire/resource/FileMemoryResource.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index f65bc03..6b3d514 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -14,6 +14,8 @@
 #include <sys/mman.h>
 #include <unistd.h>
 
+#include <limits>
+
 #include "umpire/util/Platform.hpp"
 #include "umpire/util/error.hpp"
 
@@ -50,6 +52,11 @@ FileMemoryResource::~FileMemoryResource()
 
 void* FileMemoryResource::allocate(std::size_t bytes)
 {
+  const std::size_t pagesize{(std::size_t)sysconf(_SC_PAGE_SIZE)};
+  if (bytes > std::numeric_limits<std::size_t>::max() - (pagesize - 1)) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot map {} bytes to a file", bytes));
+  }
+
   // Find output file directory for mmap files
   const char* memory_file_dir{std::getenv("UMPIRE_MEMORY_FILE_DIR")};
   std::string default_dir = "./";
@@ -68,7 +75,6 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   }
 
   // Setting Size Of Map File
-  const std::size_t pagesize{(std::size_t)sysconf(_SC_PAGE_SIZE)};
   std::size_t rounded_bytes{((bytes + (pagesize - 1)) / pagesize) * pagesize};
 
   // Truncate file
-- 
2.43.0


From e6dd9f05566ee7db67bdb123ed858d36917d312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 25/58] fix: FileMemoryResource closes the file of an
 allocation that failed

---
 src/umpire/resource/FileMemoryResource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 6b3d514..d59aa76 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -81,6 +81,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int trun{ftruncate64(fd, rounded_bytes)};
   if (trun == -1) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error, fmt::format("truncate64 of file {} failed: {}", ss.str(), strerror(errno_save)));
   }
@@ -92,6 +93,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 #endif
   if (ptr == MAP_FAILED) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error,
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
-- 
2.43.0


From 650c09c148b86e3f2c231186e3e825a89aaf8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 26/58] fix: NullMemoryResource reads the size of a mapping
 before forgetting it

---
 src/umpire/resource/NullMemoryResource.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 02de928..5723462 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -48,14 +48,14 @@ void NullMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   UMPIRE_LOG(Debug, "(ptr=" << ptr << ")");
 
   auto iter = m_size_map.find(ptr);
-  auto size = iter->second;
+  auto size = *iter->second;
 
   m_size_map.erase(ptr);
 
 #if !defined(_MSC_VER)
-  munmap(ptr, *size);
+  munmap(ptr, size);
 #else
-  VirtualFree(ptr, *size, MEM_RELEASE);
+  VirtualFree(ptr, size, MEM_RELEASE);
 #endif
 }
 
-- 
2.43.0


From 445f75cbaabf054cce3103d0d4dd26b4ac069fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 27/58] fix: NullMemoryResource reports a failed mapping
 instead of returning it

---
 src/umpire/resource/NullMemoryResource.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 5723462..acfff0b 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -13,6 +13,7 @@
 #include <sstream>
 
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 #if !defined(_MSC_VER)
 #include <sys/mman.h>
@@ -38,6 +39,14 @@ void* NullMemoryResource::allocate(std::size_t bytes)
 
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
 
+#if !defined(_MSC_VER)
+  if (ptr == MAP_FAILED) {
+#else
+  if (ptr == nullptr) {
+#endif
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("mmap( bytes = {} ) failed", bytes));
+  }
+
   m_size_map.insert(ptr, bytes);
 
   return ptr;
-- 
2.43.0


From 1743f2b844038cae373e5906307656d0bfd44d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 28/58] fix: json_file_store opens its file whichever kind of
 event comes first

---
 src/umpire/event/json_file_store.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 3705ff7..76d6a7b 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -38,6 +38,7 @@ void json_file_store::insert(const event& e)
 
 void json_file_store::insert(const allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -52,6 +53,7 @@ void json_file_store::insert(const allocate& e)
 
 void json_file_store::insert(const named_allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -66,6 +68,7 @@ void json_file_store::insert(const named_allocate& e)
 
 void json_file_store::insert(const deallocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"deallocate")"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-- 
2.43.0


From 5808fa20e038d30d21afc15bbfbaa388b5da1e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 29/58] fix: json_file_store escapes allocation names

---
 src/umpire/event/json_file_store.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 76d6a7b..e594f9f 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -57,11 +57,11 @@ void json_file_store::insert(const named_allocate& e)
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
+          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
           "\n",
-          e.size, e.ref, e.ptr, e.name.c_str(),
+          e.size, e.ref, e.ptr, nlohmann::json(e.name).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace).c_str(),
           static_cast<long long>(
               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
 }
-- 
2.43.0


From 5a49a5c09fe532c8733530da94d79aa1d1705dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 30/58] fix: shared memory refuses sizes whose rounding would
 wrap

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 672dc42..c681254 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -183,6 +183,10 @@ class HostSharedMemoryResource::impl {
     int err{0};
     void* ptr{nullptr};
     const std::size_t header_size{(sizeof(SharedMemoryBlock) + m_alignment) & ~(m_alignment - 1)};
+    if (requested_size > m_segment->segment_size || name.length() > m_segment->segment_size) {
+      UMPIRE_ERROR(out_of_memory_error, fmt::format("shared memory allocation( bytes = {} ) failed", requested_size));
+    }
+
     const std::size_t mem_size{(requested_size + m_alignment) & ~(m_alignment - 1)};
     const std::size_t name_size{(name.length() + 1 + m_alignment) & ~(m_alignment - 1)};
     const std::size_t adjusted_size{header_size + mem_size + name_size};
-- 
2.43.0


From 9e0ad6ebde2d10b5a1b8425a28b0ace3bbf35b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 31/58] fix: shared memory does not hand out an existing
 smaller block for a larger named request

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index c681254..aa2a621 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -203,6 +203,11 @@ class HostSharedMemoryResource::impl {
     SharedMemoryBlock* prev{nullptr};
 
     if (best != nullptr) {
+      if (requested_size > best->name_offset - best->memory_offset) {
+        pthread_mutex_unlock(&m_segment->mutex);
+        UMPIRE_ERROR(runtime_error, fmt::format("Shared memory allocation \"{}\" exists and is smaller than {} bytes",
+                                                name, requested_size));
+      }
       best->reference_count++;
     } else { // New allocation
       findUsableBlock(best, prev, adjusted_size);
-- 
2.43.0


From e1261b787870c568643dff5e1d32c3f6df55963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 32/58] fix: MemoryMap find and erase treat judy's unused cells
 as absent keys

---
 src/umpire/util/MemoryMap.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 2b4c476..273c29f 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -134,7 +134,7 @@ typename MemoryMap<V>::Iterator MemoryMap<V>::find(Key ptr) noexcept
   // Find the ptr and update m_oper
   m_last = judy_slot(m_array, reinterpret_cast<unsigned char*>(&ptr), judy_max);
   m_oper = reinterpret_cast<uintptr_t>(this);
-  return m_last ? Iterator{this, ptr} : Iterator{this, iterator_end{}};
+  return (m_last && *m_last) ? Iterator{this, ptr} : Iterator{this, iterator_end{}};
 }
 
 template <typename V>
@@ -145,7 +145,7 @@ typename MemoryMap<V>::ConstIterator MemoryMap<V>::find(Key ptr) const noexcept
   // Find the ptr and update m_oper
   m_last = judy_slot(m_array, reinterpret_cast<unsigned char*>(&ptr), judy_max);
   m_oper = reinterpret_cast<uintptr_t>(this);
-  return m_last ? ConstIterator{this, ptr} : ConstIterator{this, iterator_end{}};
+  return (m_last && *m_last) ? ConstIterator{this, ptr} : ConstIterator{this, iterator_end{}};
 }
 
 template <typename V>
@@ -157,8 +157,8 @@ void MemoryMap<V>::erase(Key ptr)
   m_last = judy_slot(m_array, reinterpret_cast<unsigned char*>(&ptr), judy_max);
   m_oper = reinterpret_cast<uintptr_t>(this);
 
-  // If found, remove it
-  if (m_last) {
+  // If found (judy may report an unused cell), remove it
+  if (m_last && *m_last) {
     removeLast();
   } else {
     UMPIRE_ERROR(runtime_error, fmt::format("Could not remove ptr: {}", ptr));
-- 
2.43.0


From 70253091ba4eb4fa037076d8ba26c474ec70e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 33/58] fix: judy_prv and judy_last return the cell of the key
 they report when it ends in a radix node

---
 src/tpl/umpire/judy/judy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index 0f59149..b27b4cc 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -905,7 +905,7 @@ JudySlot * judy_last( Judy * judy, JudySlot next, unsigned int off, unsigned int
                         next = inner[slot & 0x0F];
                         if( next ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 break;
                             }
@@ -1091,7 +1091,7 @@ JudySlot * judy_prv( Judy * judy ) {
                     if( inner ) {
                         if( inner[slot & 0x0F] ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 return judy_last( judy, inner[slot & 0x0F], off + 1, depth );
                             }
-- 
2.43.0


From 4d231933eb8416c88f511c32ce2a90eeff1d8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:33 +0000
Subject: [PATCH 34/58] fix: a host reallocate does not read the record it has
 deregistered

---
 src/umpire/op/HostReallocateOperation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 1c24d6f..3d84cda 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -18,7 +18,8 @@ namespace op {
 void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util::AllocationRecord* current_allocation,
                                         util::AllocationRecord* new_allocation, std::size_t new_size)
 {
-  auto allocator = umpire::Allocator(new_allocation->strategy);
+  auto strategy = new_allocation->strategy;
+  auto allocator = umpire::Allocator(strategy);
   const std::size_t old_size = current_allocation->size;
 
   //
@@ -43,10 +44,9 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
                                               current_ptr, old_record.size, new_size));
     }
 
-    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, strategy});
 
     // The resized allocation still counts as one allocation, with its new size
-    auto strategy = new_allocation->strategy;
     strategy->m_current_size = strategy->m_current_size - old_record.size + new_size;
     if (strategy->m_current_size > strategy->m_high_watermark) {
       strategy->m_high_watermark = strategy->m_current_size;
-- 
2.43.0


From b36293055b6cd56e13b9fe6e6aa079d46a424773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:32 +0000
Subject: [PATCH 35/58] fix: an OutputBuffer starts with no streams attached

---
 src/umpire/util/OutputBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/OutputBuffer.hpp b/src/umpire/util/OutputBuffer.hpp
index 13bd40f..ef62364 100644
--- a/src/umpire/util/OutputBuffer.hpp
+++ b/src/umpire/util/OutputBuffer.hpp
@@ -25,8 +25,8 @@ class OutputBuffer : public std::streambuf {
   int sync() override;
 
  private:
-  std::streambuf* d_console_stream;
-  std::streambuf* d_file_stream;
+  std::streambuf* d_console_stream{nullptr};
+  std::streambuf* d_file_stream{nullptr};
 };
 
 } // end of namespace util
-- 
2.43.0


From f52cbc08dd967ac93144682c38a93bc399b5800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:32 +0000
Subject: [PATCH 36/58] fix: finalize_io is declared as it is defined

---
 src/umpire/util/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/io.hpp b/src/umpire/util/io.hpp
index 9a50504..579006a 100644
--- a/src/umpire/util/io.hpp
+++ b/src/umpire/util/io.hpp
@@ -41,7 +41,7 @@ void initialize_io(const bool enable_log);
  * \brief Counterpart of initialize_io that finalizes the streams and ensures that no live references to the buffers
  * of standard streams exist. Most users will not need to call this manually.
  */
-void finalize_io(const bool enable_log);
+void finalize_io();
 
 /*!
  * \brief Synchronize all stream buffers to their respective output sequences.
-- 
2.43.0


From c2bac2a0c887bd0cd3a97c7e85379b9d9c868f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:32 +0000
Subject: [PATCH 37/58] fix: unknown_pointer_error carries the pointer that is
 not known

---
 src/umpire/util/AllocationMap.cpp | 2 +-
 src/umpire/util/error.hpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/AllocationMap.cpp b/src/umpire/util/AllocationMap.cpp
index 9b2008c..ac25fd3 100644
--- a/src/umpire/util/AllocationMap.cpp
+++ b/src/umpire/util/AllocationMap.cpp
@@ -188,7 +188,7 @@ const AllocationRecord* AllocationMap::find(void* ptr) const
     // use this from a debugger to dump the contents of the AllocationMap
     printAll();
 #endif
-    UMPIRE_ERROR(unknown_pointer_error, fmt::format("Allocation not mapped: {}", ptr));
+    UMPIRE_ERROR(unknown_pointer_error, fmt::format("Allocation not mapped: {}", ptr), ptr);
   }
 }
 
diff --git a/src/umpire/util/error.hpp b/src/umpire/util/error.hpp
index 335695b..ff3a196 100644
--- a/src/umpire/util/error.hpp
+++ b/src/umpire/util/error.hpp
@@ -85,7 +85,8 @@ class out_of_memory_error : public umpire::runtime_error {
 
 class unknown_pointer_error : public umpire::runtime_error {
  public:
-  unknown_pointer_error(const std::string& msg, const std::string& file, int line) : runtime_error(msg, file, line)
+  unknown_pointer_error(const std::string& msg, const std::string& file, int line, void* pointer = nullptr)
+      : runtime_error(msg, file, line), m_pointer(pointer)
   {
   }
 
-- 
2.43.0


From 709693c99fb9c6f7174948aa894e2ebaed31b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:40 +0000
Subject: [PATCH 38/58] fix: printing an empty backtrace does not index an
 empty vector

---
 src/umpire/util/backtrace.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/backtrace.inl b/src/umpire/util/backtrace.inl
index 1f4abf3..786e3fe 100644
--- a/src/umpire/util/backtrace.inl
+++ b/src/umpire/util/backtrace.inl
@@ -74,7 +74,7 @@ std::string stringify(const std::vector<void*>& frames)
   std::ostringstream backtrace_stream;
 #if !defined(_MSC_VER)
   int num_frames = frames.size();
-  char** symbols = ::backtrace_symbols(&frames[0], num_frames);
+  char** symbols = frames.empty() ? nullptr : ::backtrace_symbols(frames.data(), num_frames);
 
   backtrace_stream << "    Backtrace: " << num_frames << " frames" << std::endl;
 
-- 
2.43.0


From 26bd9111b33e8d6b75032ad715840223dfb7c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:54 +0000
Subject: [PATCH 39/58] fix: guard the pool of zero-byte allocations that all
 allocators share

Two thread-safe allocators used from different threads raced in it: each holds
only its own mutex.
---
 src/umpire/strategy/mixins/AllocateNull.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/umpire/strategy/mixins/AllocateNull.cpp b/src/umpire/strategy/mixins/AllocateNull.cpp
index 12fa1f3..c331e96 100644
--- a/src/umpire/strategy/mixins/AllocateNull.cpp
+++ b/src/umpire/strategy/mixins/AllocateNull.cpp
@@ -6,6 +6,8 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/mixins/AllocateNull.hpp"
 
+#include <mutex>
+
 #include "umpire/ResourceManager.hpp"
 #include "umpire/strategy/FixedPool.hpp"
 #include "umpire/util/Macros.hpp"
@@ -14,6 +16,12 @@ namespace umpire {
 namespace strategy {
 namespace mixins {
 
+namespace {
+// The pool of zero-byte allocations is shared by all allocators, so the mutex
+// of one thread-safe allocator does not protect it.
+std::mutex s_zero_byte_pool_mutex;
+} // end of anonymous namespace
+
 AllocateNull::AllocateNull() :
   m_zero_byte_pool{nullptr}
 {
@@ -25,6 +33,7 @@ void* AllocateNull::allocateNull()
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(s_zero_byte_pool_mutex);
   return m_zero_byte_pool->allocate(1);
 }
 
@@ -34,6 +43,7 @@ bool AllocateNull::deallocateNull(void* ptr)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(s_zero_byte_pool_mutex);
   if (m_zero_byte_pool->pointerIsFromPool(ptr)) {
     m_zero_byte_pool->deallocate(ptr, 1);
     return true;
-- 
2.43.0


From d3206f73101ec12090358373ba0003fa7c6e0778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:36 +0000
Subject: [PATCH 40/58] fix: record events whose names are not valid UTF-8
 instead of throwing

With recording on, making an allocator (or marking an event) with such a name
failed with an exception from the JSON library.
---
 src/umpire/event/json_file_store.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index e594f9f..c189672 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -31,9 +31,7 @@ void json_file_store::insert(const event& e)
 {
   open_store();
   nlohmann::json json_event = e;
-  std::stringstream ss;
-  ss << json_event;
-  fprintf(m_fstream, "%s\n", ss.str().c_str());
+  fprintf(m_fstream, "%s\n", json_event.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace).c_str());
 }
 
 void json_file_store::insert(const allocate& e)
-- 
2.43.0


From 5195509ca28697c8834fac93143dc371d643c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:56 +0000
Subject: [PATCH 41/58] fix: unpoison the blocks a pool gives back to its
 allocator

With UMPIRE_ENABLE_ASAN a block went back poisoned, so an allocator that hands
the memory out again without going through the C library (a fixed pool, mapped
memory) handed out memory that could not be touched.
---
 src/umpire/strategy/mixins/AlignedAllocation.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 05e5557..f416059 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -55,6 +55,8 @@ inline void AlignedAllocation::aligned_deallocate(void* ptr)
   void* buffer{ std::get<0>(ptr_info) };
   std::size_t size = std::get<1>(ptr_info);
   base_pointer_map.erase(ptr);
+
+  UMPIRE_UNPOISON_MEMORY_REGION(m_allocator, buffer, size);
   m_allocator->deallocate_internal(buffer, size);
 }
 
-- 
2.43.0


From d22eac958c83f98c164f8963d1e5204aa09c8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 42/58] fix: FileMemoryResource reports the size of its
 allocations

---
 src/umpire/resource/FileMemoryResource.cpp | 10 ----------
 src/umpire/resource/FileMemoryResource.hpp |  3 ---
 2 files changed, 13 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index d59aa76..ab4e37d 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -139,16 +139,6 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   m_size_map.erase(iter->first);
 }
 
-std::size_t FileMemoryResource::getCurrentSize() const noexcept
-{
-  return 0;
-}
-
-std::size_t FileMemoryResource::getHighWatermark() const noexcept
-{
-  return 0;
-}
-
 bool FileMemoryResource::isPageable() noexcept
 {
 #if defined(UMPIRE_ENABLE_CUDA)
diff --git a/src/umpire/resource/FileMemoryResource.hpp b/src/umpire/resource/FileMemoryResource.hpp
index b13f845..e5ae656 100644
--- a/src/umpire/resource/FileMemoryResource.hpp
+++ b/src/umpire/resource/FileMemoryResource.hpp
@@ -81,9 +81,6 @@ class FileMemoryResource : public MemoryResource {
    */
   void deallocate(void* ptr, std::size_t size);
 
-  std::size_t getCurrentSize() const noexcept;
-  std::size_t getHighWatermark() const noexcept;
-
   bool isAccessibleFrom(Platform p) noexcept;
 
   Platform getPlatform() noexcept;
-- 
2.43.0


From 4144d0dd1f27b96056500e856294a2eb270b9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 43/58] fix: FileMemoryResource forgets a mapping whose file
 cannot be removed

---
 src/umpire/resource/FileMemoryResource.cpp | 25 +++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index ab4e37d..9796e91 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -46,7 +46,11 @@ FileMemoryResource::~FileMemoryResource()
   }
 
   for (auto const& p : leaked_items) {
-    deallocate(p, 0);
+    try {
+      deallocate(p, 0);
+    } catch (const runtime_error& e) {
+      UMPIRE_LOG(Error, e.message());
+    }
   }
 }
 
@@ -116,27 +120,28 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
 {
   // Find information about ptr for deallocation
   auto iter = m_size_map.find(ptr);
+  const std::string file_name{iter->second->first};
 
 #if defined(UMPIRE_ENABLE_UMAP) // Unmap File
   if (uunmap(iter->first, iter->second->second) < 0) {
 #else
   if (munmap(iter->first, iter->second->second) < 0) {
 #endif
-    UMPIRE_ERROR(runtime_error,
-                 fmt::format("munmap of file {} failed: {}", iter->second->first.c_str(), strerror(errno)));
+    UMPIRE_ERROR(runtime_error, fmt::format("munmap of file {} failed: {}", file_name, strerror(errno)));
   }
 
+  // The memory is gone: remove information about file in m_size_map, so that
+  // the same address can be mapped again whether or not the file is removed
+  m_size_map.erase(iter->first);
+
 #if defined(UMPIRE_ENABLE_UMAP) // close fd
-  ::close(m_filefd[iter->second->first.c_str()]);
-  m_filefd.erase(iter->second->first.c_str());
+  ::close(m_filefd[file_name]);
+  m_filefd.erase(file_name);
 #endif
   // Remove File
-  if (remove(iter->second->first.c_str()) < 0) {
-    UMPIRE_ERROR(runtime_error,
-                 fmt::format("remove of file {} failed: {}", iter->second->first.c_str(), strerror(errno)));
+  if (remove(file_name.c_str()) < 0) {
+    UMPIRE_ERROR(runtime_error, fmt::format("remove of file {} failed: {}", file_name, strerror(errno)));
   }
-  // Remove Information about file in m_size_map
-  m_size_map.erase(iter->first);
 }
 
 bool FileMemoryResource::isPageable() noexcept
-- 
2.43.0


From faab49107864f883268cfc7c30747157ff0bf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 44/58] fix: a move or reallocate that cannot copy gives back
 the memory it took

---
 src/umpire/ResourceManager.cpp               |  7 ++++++-
 src/umpire/op/GenericReallocateOperation.cpp | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index a480ebf..cad943e 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -822,7 +822,12 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
   }
 
   void* dst_ptr{allocator.allocate(alloc_record->size)};
-  copy(dst_ptr, ptr);
+  try {
+    copy(dst_ptr, ptr);
+  } catch (...) {
+    allocator.deallocate(dst_ptr);
+    throw;
+  }
 
   deallocate(ptr);
 
diff --git a/src/umpire/op/GenericReallocateOperation.cpp b/src/umpire/op/GenericReallocateOperation.cpp
index 16709be..90fb204 100644
--- a/src/umpire/op/GenericReallocateOperation.cpp
+++ b/src/umpire/op/GenericReallocateOperation.cpp
@@ -26,7 +26,12 @@ void GenericReallocateOperation::transform(void* current_ptr, void** new_ptr,
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  try {
+    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  } catch (...) {
+    allocator.deallocate(*new_ptr);
+    throw;
+  }
 
   allocator.deallocate(current_ptr);
 }
@@ -41,7 +46,14 @@ camp::resources::EventProxy<camp::resources::Resource> GenericReallocateOperatio
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  auto event = ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
+  auto event = [&] {
+    try {
+      return ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
+    } catch (...) {
+      allocator.deallocate(*new_ptr);
+      throw;
+    }
+  }();
 
   allocator.deallocate(current_ptr);
 
-- 
2.43.0


From 5eceda7ce466dcad600ff014b0a13510ce3b0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 45/58] fix: FileMemoryResource never uses a file that already
 exists

---
 src/umpire/resource/FileMemoryResource.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 9796e91..4e8f177 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -68,12 +68,17 @@ void* FileMemoryResource::allocate(std::size_t bytes)
     default_dir = memory_file_dir;
   }
 
-  // Create name and open file
+  // Create name and open file. A file of that name may belong to a process with
+  // the same id on another node, or to one that crashed: never share it.
   std::stringstream ss;
-  ss << default_dir << "umpire_mem_" << getpid() << "_" << s_file_counter;
-  s_file_counter++;
-
-  int fd{open(ss.str().c_str(), O_RDWR | O_CREAT | O_LARGEFILE, S_IRWXU)};
+  int fd{-1};
+  do {
+    ss.str("");
+    ss << default_dir << "umpire_mem_" << getpid() << "_" << s_file_counter;
+    s_file_counter++;
+
+    fd = open(ss.str().c_str(), O_RDWR | O_CREAT | O_EXCL | O_LARGEFILE, S_IRWXU);
+  } while (fd == -1 && errno == EEXIST);
   if (fd == -1) {
     UMPIRE_ERROR(runtime_error, fmt::format("Opening file {} failed: {}", ss.str(), strerror(errno)));
   }
-- 
2.43.0


From cadf8dd9922cec2dba1b0446851b1f976baac3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 46/58] fix: a shared memory segment that cannot be set up is
 not left behind

---
 .../resource/HostSharedMemoryResourceImpl.hpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index aa2a621..186b870 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -89,13 +89,25 @@ class HostSharedMemoryResource::impl {
     }
 
     if (created) {
+      if (size < sizeof(SharedMemorySegmentHeader) + sizeof(SharedMemoryBlock)) {
+        discard_shared_memory_segment();
+        UMPIRE_ERROR(runtime_error,
+                     fmt::format("Shared memory segment \"{}\" cannot have {} bytes only", m_segment_name, size));
+      }
+
       if (0 != ftruncate(m_segment_fd, size)) {
         err = errno;
+        discard_shared_memory_segment();
         UMPIRE_ERROR(runtime_error, fmt::format("Failed to set size for shared memory segment \"{}\": {}",
                                                 m_segment_name, strerror(err)));
       }
 
-      map_shared_memory_segment();
+      try {
+        map_shared_memory_segment();
+      } catch (...) {
+        discard_shared_memory_segment();
+        throw;
+      }
 
       __atomic_store_n(&m_segment->init_flag, Initializing, __ATOMIC_SEQ_CST);
 
@@ -493,6 +505,13 @@ class HostSharedMemoryResource::impl {
     return rval;
   }
 
+  // A segment that could not be set up must not be found by other processes
+  void discard_shared_memory_segment()
+  {
+    ::close(m_segment_fd);
+    ::shm_unlink(m_segment_name.c_str());
+  }
+
   void map_shared_memory_segment()
   {
     struct ::stat buf;
-- 
2.43.0


From d18795bcb971a588240adcba481ab8d002242ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 47/58] fix: replay sessions in which a reallocate failed

---
 tools/replay/ReplayInterpreter.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 4556001..07e799f 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -4,9 +4,11 @@
 //
 // SPDX-License-Identifier: (MIT)
 //////////////////////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <cstring>
 #include <iomanip>
 #include <iostream>
+#include <iterator>
 #include <sstream>
 #include <string>
 
@@ -74,10 +76,10 @@ umpire::event::json_file_store store{m_options.input_file, true};
   std::vector<umpire::event::event> events;
   events = store.get_events();
 
-  for (auto e : events) {
+  for (auto it = events.begin(); it != events.end(); ++it) {
     m_line_number++;
 
-    m_event = e;
+    m_event = *it;
 
     if ( m_event.cat != umpire::event::category::operation && m_event.name == "version" ) {
       m_version_ops++;
@@ -138,6 +140,17 @@ umpire::event::json_file_store store{m_options.input_file, true};
         m_move_ops++;
       }
       else if ( m_event.name == "reallocate" ) {
+        //
+        // The result of a reallocate is the next reallocate event. Without it, the reallocate failed.
+        //
+        if (m_event.string_args.find("new_ptr") == m_event.string_args.end()) {
+          const auto result = std::find_if(std::next(it), events.end(),
+            [](const umpire::event::event& e) { return e.name == "reallocate"; });
+
+          if (result == events.end() || result->string_args.find("new_ptr") == result->string_args.end()) {
+            continue;
+          }
+        }
         m_reallocate_ops++;
         compile_reallocate();
       }
-- 
2.43.0


From 794ad019166475857a27ea74c89eda90ae754a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 48/58] fix: replay named allocations

---
 tools/replay/ReplayInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 07e799f..bb49bfc 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -115,7 +115,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
       continue;
 
     try {
-      if ( m_event.name == "allocate" ) {
+      if ( m_event.name == "allocate" || m_event.name == "named_allocate" ) {
         m_allocate_ops++;
         compile_allocate();
       }
-- 
2.43.0


From bd1c58dda7f012c3b04111cefd92399159ec98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 49/58] fix: accept memset events in a replay log

---
 tools/replay/ReplayInterpreter.cpp | 4 ++++
 tools/replay/ReplayInterpreter.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index bb49bfc..72af73e 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -136,6 +136,9 @@ umpire::event::json_file_store store{m_options.input_file, true};
       else if ( m_event.name == "copy" ) {
         m_copy_ops++;
       }
+      else if ( m_event.name == "memset" ) {
+        m_memset_ops++;
+      }
       else if ( m_event.name == "move" ) {
         m_move_ops++;
       }
@@ -207,6 +210,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
       << std::setw(12) << m_deregister_external_pointer << " external deregistrations (not replayed)" << std::endl
       << std::endl
       << std::setw(12) << m_copy_ops << " copy operations" << std::endl
+      << std::setw(12) << m_memset_ops << " memset operations" << std::endl
       << std::setw(12) << m_move_ops << " move operations" << std::endl
       << std::setw(12) << m_reallocate_ops << " reallocate operations" << std::endl
       << std::setw(12) << m_set_default_allocator_ops << " setDefaultAllocator operations" << std::endl
diff --git a/tools/replay/ReplayInterpreter.hpp b/tools/replay/ReplayInterpreter.hpp
index 9455e24..331f16f 100644
--- a/tools/replay/ReplayInterpreter.hpp
+++ b/tools/replay/ReplayInterpreter.hpp
@@ -56,6 +56,7 @@ class ReplayInterpreter {
     std::size_t m_make_allocator_ops{0};
     std::size_t m_make_memory_resource_ops{0};
     std::size_t m_copy_ops{0};
+    std::size_t m_memset_ops{0};
     std::size_t m_move_ops{0};
     std::size_t m_reallocate_ops{0};
     std::size_t m_set_default_allocator_ops{0};
-- 
2.43.0


From b93cee7830465a4e33168e715ef7f5f8cbb6208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:21 +0000
Subject: [PATCH 50/58] fix: replay statistics of untracked allocations

---
 tools/replay/ReplayOperationManager.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/replay/ReplayOperationManager.cpp b/tools/replay/ReplayOperationManager.cpp
index 43c86d9..b7cc988 100644
--- a/tools/replay/ReplayOperationManager.cpp
+++ b/tools/replay/ReplayOperationManager.cpp
@@ -197,9 +197,7 @@ void ReplayOperationManager::runOperations()
           break;
         case ReplayFile::otype::DEALLOCATE:
           if (m_options.track_stats || m_options.dump_statistics) {
-            auto alloc = &m_ops_table->allocators[op->op_allocator];
-            auto ptr = m_ops_table->ops[op->op_alloc_ops[0]].op_allocated_ptr;
-            size_histogram[op->op_allocator].decrement(alloc->allocator->getSize(ptr));
+            size_histogram[op->op_allocator].decrement(m_ops_table->ops[op->op_alloc_ops[0]].op_size);
           }
           makeDeallocate(op);
           break;
-- 
2.43.0


From 67ae9bb8f2beffe7a1bf9629ef38bd2c576b64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:21 +0000
Subject: [PATCH 51/58] fix: replay coalesce of a pool whose name ends in _base

---
 tools/replay/ReplayInterpreter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 72af73e..c648d29 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -821,7 +821,9 @@ bool ReplayInterpreter::compile_deallocate()
 void ReplayInterpreter::compile_coalesce()
 {
   std::string allocator_name{m_event.tags["allocator_name"]};
-  strip_off_base(allocator_name);
+  if (m_allocator_index.find(allocator_name) == m_allocator_index.end()) {
+    strip_off_base(allocator_name);
+  }
 
   ReplayFile::Header* hdr = m_ops->getOperationsTable();
   ReplayFile::Operation* op = &hdr->ops[hdr->num_operations];
-- 
2.43.0


From 251d4ee5eb439a15cf7976363de17c92c4d9f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:40 +0000
Subject: [PATCH 52/58] fix: leave no pointers of the run in a replay file
 compiled with -r

---
 tools/replay/ReplayInterpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index c648d29..6828c83 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -188,6 +188,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
   // Flush operations to compile file and read back in read-only (PRIVATE) mode
   //
   delete m_ops;
+  m_options.force_compile = false;
   m_ops = new ReplayFile{m_options};
 
   if ( ! m_options.quiet ) {
-- 
2.43.0


From eb117e4efd07a0931d8da189204766e86a86f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:46 +0000
Subject: [PATCH 53/58] fix: replaydiff reports sessions of different length as
 different

---
 tools/replay/ReplayInterpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 6828c83..e2daec7 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -286,6 +286,7 @@ bool ReplayInterpreter::compareOperations(ReplayInterpreter& rh)
         << m_ops->getOperationsTable()->num_operations
         << " != " << rh.m_ops->getOperationsTable()->num_operations
         << std::endl;
+    rval = false;
   }
 
   if ( rval != false ) {
-- 
2.43.0


From a8b9903d21a7afe79ceb21d3d0205c19f86f69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:12 +0000
Subject: [PATCH 54/58] fix: count reallocations in replay statistics and keep
 them over setDefaultAllocator

---
 tools/replay/ReplayOperationManager.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/replay/ReplayOperationManager.cpp b/tools/replay/ReplayOperationManager.cpp
index b7cc988..4283794 100644
--- a/tools/replay/ReplayOperationManager.cpp
+++ b/tools/replay/ReplayOperationManager.cpp
@@ -173,9 +173,6 @@ void ReplayOperationManager::runOperations()
           makeAllocator(op);
           break;
         case ReplayFile::otype::SETDEFAULTALLOCATOR:
-          if (m_options.track_stats) {
-            size_histogram[op->op_allocator] = TrackedHistogram{};
-          }
           makeSetDefaultAllocator(op);
           break;
         case ReplayFile::otype::COPY:
@@ -187,6 +184,12 @@ void ReplayOperationManager::runOperations()
           makeReallocate(op);
           break;
         case ReplayFile::otype::REALLOCATE_EX:
+          if (m_options.track_stats || m_options.dump_statistics) {
+            if (op->op_alloc_ops[1] != 0) {
+              size_histogram[op->op_allocator].decrement(m_ops_table->ops[op->op_alloc_ops[1]].op_size);
+            }
+            size_histogram[op->op_allocator].increment(op->op_size);
+          }
           makeReallocate_ex(op);
           break;
         case ReplayFile::otype::ALLOCATE:
-- 
2.43.0


From 0738565ab355d52a588c786987053496c1f321a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:07 +0000
Subject: [PATCH 55/58] fix: MixedPool forgets the addresses it gave back

---
 src/umpire/strategy/MixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index adba672..aa3663a 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -90,6 +90,7 @@ void MixedPool::deallocate(void* ptr, std::size_t size)
     } else {
       m_fixed_pool[index]->deallocate_internal(ptr, size);
     }
+    m_map.erase(iter);
   }
 }
 
-- 
2.43.0


From 866b60604582faf333911fe10775a5a68ac6a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 56/58] fix: makeResource refuses a name of no resource before
 it registers it

---
 src/umpire/ResourceManager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index cad943e..767e968 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -143,6 +143,12 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
 
   resource::MemoryResourceRegistry& registry{resource::MemoryResourceRegistry::getInstance()};
 
+  // A name that is not that of a resource type is refused before anything is registered
+  resource::MemoryResourceType resource_type{resource::MemoryResourceType::Unknown};
+  if (name.find("::") == std::string::npos) {
+    resource_type = resource::string_to_resource(name);
+  }
+
   if (name.find("DEVICE") != std::string::npos) {
     traits.id = resource::resource_to_device_id(name);
   }
@@ -176,8 +182,8 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     std::string base_name{name.substr(0, name.find("::"))};
     m_allocators_by_name[base_name] = allocator.get();
   }
-  if (name.find("::") == std::string::npos) {
-    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
+  if (resource_type != resource::MemoryResourceType::Unknown) {
+    m_memory_resources[resource_type] = allocator.get();
   }
   m_allocators_by_id[id] = allocator.get();
   m_allocators.emplace_front(std::move(allocator));
-- 
2.43.0


From e3e53d35f124a3424b71c109ac3592a35412f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 57/58] fix: makeResource of a device 0 takes its base name
 only when that is free

---
 src/umpire/ResourceManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 767e968..36c28cf 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -178,9 +178,10 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
   if (name == "DEVICE") {
     m_allocators_by_name["DEVICE::0"] = allocator.get();
   }
-  if (name.find("::0") != std::string::npos) {
-    std::string base_name{name.substr(0, name.find("::"))};
-    m_allocators_by_name[base_name] = allocator.get();
+  const std::size_t separator{name.find("::")};
+  if (separator != std::string::npos && name.compare(separator, std::string::npos, "::0") == 0) {
+    // The first device also answers to the base name, unless that is taken
+    m_allocators_by_name.emplace(name.substr(0, separator), allocator.get());
   }
   if (resource_type != resource::MemoryResourceType::Unknown) {
     m_memory_resources[resource_type] = allocator.get();
-- 
2.43.0


From c4912e9f9927cba46db28e075eeb16c5d12fb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:00 +0000
Subject: [PATCH 58/58] fix: an advisor or prefetcher whose operation fails
 gives back the memory it took

AllocationAdvisor::allocate and AllocationPrefetcher::allocate let the error of
the operation out with the memory of the parent still taken and counted, and
no one left who knows its address.
---
 src/umpire/strategy/AllocationAdvisor.cpp    | 7 ++++++-
 src/umpire/strategy/AllocationPrefetcher.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationAdvisor.cpp b/src/umpire/strategy/AllocationAdvisor.cpp
index e7682fa..87903c9 100644
--- a/src/umpire/strategy/AllocationAdvisor.cpp
+++ b/src/umpire/strategy/AllocationAdvisor.cpp
@@ -45,7 +45,12 @@ AllocationAdvisor::AllocationAdvisor(const std::string& name, int id, Allocator
 void* AllocationAdvisor::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
-  m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
diff --git a/src/umpire/strategy/AllocationPrefetcher.cpp b/src/umpire/strategy/AllocationPrefetcher.cpp
index 1507dd4..6e298b0 100644
--- a/src/umpire/strategy/AllocationPrefetcher.cpp
+++ b/src/umpire/strategy/AllocationPrefetcher.cpp
@@ -27,7 +27,12 @@ void* AllocationPrefetcher::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
 
-  m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
-- 
2.43.0

