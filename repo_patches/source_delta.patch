From 91a8d2b2adfabc8f53026927c5825009b83e39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 01/26] fix: keep the mirror of a doubly mapped ring exactly
 one ring length away

The second mapping starts one mapping length after the first, but the ring was
capacity_*sizeof(T) bytes long: with item sizes that do not divide the page size,
or when the mapping was enlarged to huge pages, contiguous windows past the end
of the ring did not alias its start.
---
 include/cler_spsc-queue.hpp                | 10 +++++++---
 include/virtual_memory/cler_vmem_posix.hpp |  6 +++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..d5eddec 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -19,6 +19,7 @@
 #include <limits>      // for numeric_limits
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
+#include <numeric>     // for std::gcd
 #include <type_traits> // for std::is_default_constructible
 #include <utility>     // for forward
 #include <cstring>     // for std::memcpy
@@ -95,9 +96,11 @@ public:
           // If DBF is possible, align capacity to page boundary
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
+            // The ring must fill its pages exactly: the mirror starts at the end of the mapping,
+            // so the capacity is rounded up to a whole number of items that is also page-aligned
             const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
-            return aligned_bytes / sizeof(T);  // Return page-aligned capacity
+            const std::size_t granule = page_size / std::gcd(page_size, sizeof(T));
+            return ((requested_capacity + granule - 1) / granule) * granule;
           }
           return requested_capacity;  // Return regular capacity
         }()),
@@ -114,7 +117,8 @@ public:
         buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
       
       // capacity_ is already page-aligned from the lambda above
-      if (vmem_allocation_.create(buffer_bytes)) {
+      // The mapping may have been enlarged (e.g. huge pages): its mirror is then not adjacent to the ring
+      if (vmem_allocation_.create(buffer_bytes) && vmem_allocation_.size() == buffer_bytes) {
         buffer_ = static_cast<T*>(vmem_allocation_.data());
         if (buffer_) {
           is_doubly_mapped_ = true;
diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..cc793f3 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -87,9 +87,9 @@ public:
         
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
-        if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
+        if (huge_page_size > 0 && aligned_size >= huge_page_size && aligned_size % huge_page_size == 0) {
+            // Only when the size is already a multiple: enlarging the mapping would move the mirror
+            // away from the end of the caller's buffer
             use_huge_pages = true;
         }
         #endif
-- 
2.43.0


From 4f0b90990987cae21ec8556f63f9bf2d50cd3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 02/26] fix: answer the doubly-mapped-buffer query consistently
 when first asked by several threads

---
 include/cler_platform.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cler_platform.hpp b/include/cler_platform.hpp
index 6ac191d..a054f69 100644
--- a/include/cler_platform.hpp
+++ b/include/cler_platform.hpp
@@ -129,12 +129,11 @@ namespace cler {
             #if !defined(__linux__) && !defined(__APPLE__) && !defined(__FreeBSD__)
                 return false;
             #else
-                static bool tested = false;
-                static bool supported = false;
-                
-                if (tested) return supported;
-                tested = true;
-                
+                // Initialised once, under the language's own guard: callers on several threads
+                // all wait for, and see, the same answer
+                static const bool supported_once = [] {
+                bool supported = false;
+
                 #if CLER_HAS_MMAP_H
                     // Try to create a small test mapping
                     const size_t test_size = get_page_size();
@@ -208,6 +207,8 @@ namespace cler {
                 #endif
                 
                 return supported;
+                }();
+                return supported_once;
             #endif
         }
 
-- 
2.43.0


From ad0f5cde6575e99e4b6431298aa56672093057ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 03/26] fix: never start more pool workers than the scheduler
 has queues for

---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..45235f6 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -588,6 +588,8 @@ namespace cler {
             } else {
                 // Fewer workers than blocks - use fixed thread pool scheduler
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
+                // The scheduler has room for DEFAULT_MAX_WORKERS workers only
+                num_workers = std::min(num_workers, DEFAULT_MAX_WORKERS);
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
                 
                 // Record start time for all blocks (only if detailed stats enabled)
-- 
2.43.0


From 9ba7db0b390cc53b49709d5f097490d5f70e0193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 04/26] fix: keep the first adaptive sleep within the
 configured maximum

---
 include/cler.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 45235f6..f32271e 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -315,8 +315,12 @@ namespace cler {
                     if (current_sleep == 0.0) {
                         // Start sleeping with 1 microsecond
                         static constexpr double INITIAL_SLEEP_US = 1.0;
-                        stats.current_adaptive_sleep_us.store(INITIAL_SLEEP_US);
-                        TaskPolicy::sleep_us(static_cast<size_t>(INITIAL_SLEEP_US));
+                        double initial_sleep = INITIAL_SLEEP_US;
+                        if (initial_sleep > _config.adaptive_sleep_max_us) {
+                            initial_sleep = _config.adaptive_sleep_max_us;
+                        }
+                        stats.current_adaptive_sleep_us.store(initial_sleep);
+                        TaskPolicy::sleep_us(static_cast<size_t>(initial_sleep));
                     } else {
                         // Exponential backoff with deterministic jitter to prevent thundering herd
                         double base_sleep = current_sleep * _config.adaptive_sleep_multiplier;
-- 
2.43.0


From 6d5088f485bc4a73b653e2cc4edc8612f7fdd2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 05/26] fix: end the failure streak before counting a failure
 that follows a success in the same batch

---
 include/cler.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index f32271e..958b802 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -404,6 +404,11 @@ namespace cler {
                             if (config.collect_detailed_stats) {
                                 total_dead_time_s += dt.count();
                             }
+                            if (did_work_in_batch) {
+                                // A success earlier in this batch ended the failure streak
+                                handle_adaptive_sleep(I, true);
+                                did_work_in_batch = false;
+                            }
                             handle_adaptive_sleep(I, false);
                             break;  // Exit micro-batch loop
                         } else {
@@ -676,6 +681,7 @@ namespace cler {
             auto& stats = _stats[I];
             
             bool did_work = false;
+            bool success_handled = false;
             
             // Micro-batching: run block multiple times if it's making progress
             for (size_t c = 0; c < config.max_calls_per_tick && !_stop_flag; ++c) {
@@ -701,6 +707,11 @@ namespace cler {
                     // No progress - leave the burst early to let others run
                     if (err == Error::NotEnoughSamples || err == Error::NotEnoughSpace ||
                         err == Error::NotEnoughSpaceOrSamples) {
+                        if (did_work) {
+                            // A success earlier in this batch ended the failure streak
+                            handle_adaptive_sleep(I, true);
+                            success_handled = true;
+                        }
                         handle_adaptive_sleep(I, false);
                         break;  // Exit micro-batch loop
                     } else {
@@ -717,7 +728,7 @@ namespace cler {
                 }
             }
             
-            if (did_work) {
+            if (did_work && !success_handled) {
                 handle_adaptive_sleep(I, true);
             }
             
-- 
2.43.0


From b0518a8ec421d995a4f4696b3673ff9a049a8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 06/26] fix: publish the statistics of a block that terminated
 the flowgraph (thread per block)

---
 include/cler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 958b802..0f4c672 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -397,7 +397,7 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            break;  // the stop flag ends the outer loop; statistics are still published
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
-- 
2.43.0


From ec73222c000e8cebfb940fd979f985843edae3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 07/26] fix: start every run with fresh execution counters
 under both schedulers

---
 include/cler.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 0f4c672..89ef336 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -457,6 +457,10 @@ namespace cler {
         void init_stats_impl(std::index_sequence<Is...>) {
             static_assert(((Is < _N) && ...), "All block indices must be within bounds");
             ((_stats[Is].name = std::get<Is>(_runners).block->name()), ...);
+            // Counters describe one run: forget those of an earlier one
+            ((_stats[Is].successful_procedures = 0), ...);
+            ((_stats[Is].failed_procedures = 0), ...);
+            ((_stats[Is].total_dead_time_s = 0.0), ...);
         }
         
         template<std::size_t... Is>
-- 
2.43.0


From 57f71c2f63c099593f3c9c4db036f9b4210cee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 08/26] fix: resampler releases its handle and buffers when an
 allocation fails

new T[] throws instead of returning null, so the cleanup branches never ran.
---
 desktop_blocks/resamplers/multistage_resampler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 906f368..d08de7d 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -2,6 +2,7 @@
 
 #include "liquid.h"
 #include "cler.hpp"
+#include <new>
 #include <type_traits>
 
 template <typename>
@@ -44,7 +45,7 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         _buffer_size = buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : buffer_size;
         
         // Allocate input buffer
-        _input_buffer = new T[_buffer_size];
+        _input_buffer = new (std::nothrow) T[_buffer_size];
         if (!_input_buffer) {
             // Clean up resampler
             if constexpr (std::is_same_v<T, float>) {
@@ -57,7 +58,7 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         
         // Allocate output buffer (sized for maximum expansion case)
         size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 100); // Extra space for safety
-        _output_buffer = new T[output_buffer_size];
+        _output_buffer = new (std::nothrow) T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
             // Clean up resampler
-- 
2.43.0


From 936e086303ff0b1e2c30d77c328a5daaac4acd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 09/26] fix: resampler output buffer holds the rounding of
 large ratios

With ratios above about 200 a full input buffer could resample to more than
ratio * n + 100 samples, which overran the output buffer.
---
 desktop_blocks/resamplers/multistage_resampler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index d08de7d..3994984 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -56,8 +56,9 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             throw std::bad_alloc();
         }
         
-        // Allocate output buffer (sized for maximum expansion case)
-        size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 100); // Extra space for safety
+        // Allocate output buffer (sized for maximum expansion case). The interpolation stages
+        // round the output of a call up by less than two input samples' worth.
+        size_t output_buffer_size = static_cast<size_t>((_buffer_size + 2) * _ratio + 100); // Extra space for safety
         _output_buffer = new (std::nothrow) T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
-- 
2.43.0


From afaf14ba3bfe233b2e6ef28ab68ef9377551faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 10/26] fix: resampler keeps samples that do not fit the output

A call may resample to a few samples more than ratio * input; when the output
had no room for them the short write dropped them.
---
 .../resamplers/multistage_resampler.hpp          | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 3994984..3b08951 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -89,6 +89,17 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out)
     {
+        // Deliver what an earlier call resampled but had no room for
+        if (_pending > 0) {
+            size_t written = out->writeN(_output_buffer + _pending_start, _pending);
+            _pending_start += written;
+            _pending -= written;
+            if (written == 0) {
+                return cler::Error::NotEnoughSpace;
+            }
+            return cler::Empty{};
+        }
+
         // Use readN/writeN for simple processing (recommended pattern)
         size_t available_input = in.size();
         size_t available_output = out->space();
@@ -131,7 +142,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         }
         
         // Write resampled output
-        out->writeN(_output_buffer, n_resampled);
+        _pending_start = out->writeN(_output_buffer, n_resampled);
+        _pending = n_resampled - _pending_start;
 
         return cler::Empty{};
     }
@@ -140,6 +152,8 @@ private:
     float _ratio;
     size_t _buffer_size;
     size_t _output_buffer_size;
+    size_t _pending_start = 0;
+    size_t _pending = 0; // resampled samples still to be written
     
     T* _input_buffer = nullptr;
     T* _output_buffer = nullptr;
-- 
2.43.0


From a09beada44e04d958331c9d37993b0176b7f2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 11/26] fix: noise block allocates its buffer after seeding

std::random_device may throw, and the buffer allocated before it leaked.
---
 desktop_blocks/noise/awgn.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/noise/awgn.hpp b/desktop_blocks/noise/awgn.hpp
index 5270083..d19b441 100644
--- a/desktop_blocks/noise/awgn.hpp
+++ b/desktop_blocks/noise/awgn.hpp
@@ -15,16 +15,16 @@ struct NoiseAWGNBlock : public cler::BlockBase {
     NoiseAWGNBlock(const char* name, scalar_type noise_stddev, const size_t buffer_size = 0)
         : cler::BlockBase(name), in(buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : buffer_size), _noise_stddev(noise_stddev) {
         
+        std::random_device rd;
+        _rng.seed(rd());
+        _normal_dist = std::normal_distribution<scalar_type>(0.0, _noise_stddev);
+
         // Allocate temporary buffer for readN/writeN operations
         _buffer_size = buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : buffer_size;
         _buffer = new T[_buffer_size];
         if (!_buffer) {
             throw std::bad_alloc();
         }
-
-        std::random_device rd;
-        _rng.seed(rd());
-        _normal_dist = std::normal_distribution<scalar_type>(0.0, _noise_stddev);
     }
 
     ~NoiseAWGNBlock() {
-- 
2.43.0


From e310e6638d7d9b0c382a41bb9c237b9f5e7d9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 12/26] fix: channelizer allocates its frame buffer before the
 filterbank

If the buffer allocation threw, the liquid object leaked.
---
 desktop_blocks/channelizers/polyphase_channelizer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/channelizers/polyphase_channelizer.hpp b/desktop_blocks/channelizers/polyphase_channelizer.hpp
index 978fdb9..db64bc7 100644
--- a/desktop_blocks/channelizers/polyphase_channelizer.hpp
+++ b/desktop_blocks/channelizers/polyphase_channelizer.hpp
@@ -34,6 +34,9 @@ struct PolyphaseChannelizerBlock : public cler::BlockBase {
         assert(_num_channels > 0 && "Number of channels must be positive");
         assert(kaiser_filter_semilength > 0 && "Filter semilength must be positive");
 
+        // Pre-allocate temporary output buffer (before the channelizer: this may throw)
+        _tmp_out.resize(_num_channels);
+
         _pfch = firpfbch_crcf_create_kaiser(
             LIQUID_ANALYZER,
             _num_channels,
@@ -43,9 +46,6 @@ struct PolyphaseChannelizerBlock : public cler::BlockBase {
         if (!_pfch) {
             throw std::runtime_error("Failed to create polyphase channelizer");
         }
-
-        // Pre-allocate temporary output buffer
-        _tmp_out.resize(_num_channels);
     }
 
     ~PolyphaseChannelizerBlock() {
-- 
2.43.0


From 40f870d5163224fdd63d9243a7cd82d26b1af48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 13/26] fix: file sink consumes the items the file accepted
 before reporting a short write

---
 desktop_blocks/sinks/sink_file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/sinks/sink_file.hpp b/desktop_blocks/sinks/sink_file.hpp
index 09c4e21..f094df9 100644
--- a/desktop_blocks/sinks/sink_file.hpp
+++ b/desktop_blocks/sinks/sink_file.hpp
@@ -55,8 +55,8 @@ struct SinkFileBlock : public cler::BlockBase {
         if (span_size > 0) {
             // Single write, no copy
             size_t written = std::fwrite(span_ptr, sizeof(T), span_size, _fp);
-            if (written != span_size) return cler::Error::TERM_IOError;
             in.commit_read(written);
+            if (written != span_size) return cler::Error::TERM_IOError;
         }
         return cler::Empty{};
     }
-- 
2.43.0


From 4c53b35683f0090e80218c80b6ed311ccb3e104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 14/26] fix: give Error::OK and Error::TERMINATE_FLOWGRAPH
 their own text in to_str

---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 89ef336..b113650 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -50,12 +50,14 @@ namespace cler {
 
     inline const char* to_str(Error error) {
         switch (error) {
+            case Error::OK: return "OK";
             case Error::Unknown: return "Unknown error";
             case Error::NotEnoughSpace: return "Not enough space in output buffers";
             case Error::NotEnoughSamples: return "Not enough samples in input buffers";
             case Error::NotEnoughSpaceOrSamples: return "Not enough space or samples in buffers";
             case Error::ProcedureError: return "Procedure error";
             case Error::BadData: return "Bad data received";
+            case Error::TERMINATE_FLOWGRAPH: return "TERM: Flowgraph terminated";
             case Error::TERM_InvalidChannelIndex: return "TERM: Invalid channel index";
             case Error::TERM_ProcedureError: return "TERM: Procedure error";
             case Error::TERM_IOError: return "TERM: IO error";
-- 
2.43.0


From 717e8418bdc52da2c69d97336ee42688c2064c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 15/26] fix: return blob slots to their slab also when
 assertions are compiled out

---
 desktop_blocks/blob.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9ff587e..9a22fca 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,5 +31,7 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
-    assert(_free_slots.try_push(slot_idx));
+    bool returned = _free_slots.try_push(slot_idx);
+    assert(returned && "BUG: more slots returned than taken");
+    (void)returned;
 }
\ No newline at end of file
-- 
2.43.0


From f09334d6b47346789cc43f2b3c16241bfddfcb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 16/26] fix: serialise returning blob slots, which source and
 consumers do concurrently

---
 desktop_blocks/blob.cpp | 1 +
 desktop_blocks/blob.hpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9a22fca..e0232e5 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,6 +31,7 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
+    std::lock_guard<std::mutex> lock(_release_mutex); // blobs come back from several threads
     bool returned = _free_slots.try_push(slot_idx);
     assert(returned && "BUG: more slots returned than taken");
     (void)returned;
diff --git a/desktop_blocks/blob.hpp b/desktop_blocks/blob.hpp
index 453abfa..905c373 100644
--- a/desktop_blocks/blob.hpp
+++ b/desktop_blocks/blob.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "cler.hpp"
 #include <memory>
+#include <mutex>
 
 struct Slab;
 
@@ -30,4 +31,5 @@ private:
     size_t _max_blob_size;
     std::unique_ptr<uint8_t[]> _data;
     cler::Channel<size_t> _free_slots;
+    std::mutex _release_mutex; // the free list takes a single producer
 };
\ No newline at end of file
-- 
2.43.0


From c4375268a90e638a765c9a644760b2a5d98e29a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 17/26] fix: UDP source delivers every accepted datagram and
 reports hard receive errors

---
 desktop_blocks/udp/source_udp.hpp | 49 ++++++++++++++-----------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..92ad98b 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -40,6 +40,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
 
         T buffer[available];
         size_t count = 0;
+        bool failed = false;
 
         for (size_t i = 0; i < available; ++i) {
             if constexpr (IS_BLOB) {
@@ -50,30 +51,11 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 Blob blob = result.unwrap();
                 ssize_t bytes = _socket.recv(blob.data, blob.len);
 
-                if (bytes == 0) {
+                if (bytes <= 0) {
                     blob.release();
-                    return cler::Empty{};
-                }
-
-                if (bytes < 0) {
-                    int err = -bytes;
-                    switch (err) {
-                        case EAGAIN:
-#if EAGAIN != EWOULDBLOCK
-                        case EWOULDBLOCK:
-#endif
-                        case EINTR:
-                            blob.release();
-                            return cler::Empty{};
-
-                        case EMSGSIZE:
-                            blob.release();
-                            return cler::Empty{};
-
-                        default:
-                            blob.release();
-                            return cler::Error::TERM_IOError;
-                    }
+                    if (bytes == -EMSGSIZE) continue; // truncated: only this datagram is lost
+                    failed = is_hard_error(bytes);
+                    break;
                 }
 
                 blob.len = static_cast<size_t>(bytes);
@@ -90,15 +72,20 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 buffer[count++] = blob;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
-                if (bytes <= 0) break;
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
+                if (bytes == -EMSGSIZE) continue; // truncated: only this datagram is lost
+                if (bytes <= 0) {
+                    failed = is_hard_error(bytes);
+                    break;
+                }
+                if (static_cast<size_t>(bytes) < sizeof(T)) continue; // not a whole item
 
-                if (_validate && !_validate(buffer[i], _validate_context)) {
+                if (_validate && !_validate(buffer[count], _validate_context)) {
                     continue;
                 }
 
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(buffer[count], _callback_context);
                 }
 
                 count++;
@@ -109,10 +96,18 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
             out->writeN(buffer, count);
         }
 
+        if (failed) {
+            return cler::Error::TERM_IOError;
+        }
         return cler::Empty{};
     }
 
 private:
+    // recv reports -errno; a timeout or an interruption is not an error
+    static bool is_hard_error(ssize_t received) {
+        return received < 0 && received != -EAGAIN && received != -EWOULDBLOCK && received != -EINTR;
+    }
+
     UDPBlock::GenericDatagramSocket _socket;
     Slab _slab;  // Only used when IS_BLOB == true
     ValidateCallback _validate = nullptr;
-- 
2.43.0


From 93a800c9e14852411803ffbcdc120fca8971f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 18/26] fix: UDP sink returns the slots of unsent blobs when a
 send fails

---
 desktop_blocks/udp/sink_udp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..9bed509 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -55,6 +55,12 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             }
 
             if (bytes < 0) {
+                if constexpr (IS_BLOB) {
+                    // the items that will not be sent still own their slots
+                    for (size_t j = i + 1; j < available; ++j) {
+                        buffer[j].release();
+                    }
+                }
                 return cler::Error::TERM_IOError;
             }
         }
-- 
2.43.0


From e9976d10336e58345c93949717bca52df43b194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 19/26] fix: a datagram socket can no longer be copied and its
 descriptor closed twice

---
 desktop_blocks/udp/shared.cpp | 9 +++++++++
 desktop_blocks/udp/shared.hpp | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index c8a68cd..f76c67a 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -97,6 +97,15 @@ GenericDatagramSocket::GenericDatagramSocket(SocketType type,
     }
 }
 
+GenericDatagramSocket::GenericDatagramSocket(GenericDatagramSocket&& other) noexcept
+: _type(other._type), _sockfd(other._sockfd),
+  _dest_inet(other._dest_inet), _dest_inet6(other._dest_inet6), _dest_un(other._dest_un),
+  _bound_unix_path(std::move(other._bound_unix_path))
+{
+    other._sockfd = -1;
+    other._bound_unix_path.clear();
+}
+
 GenericDatagramSocket GenericDatagramSocket::make_receiver(SocketType type,
                                         const std::string& bind_addr_str)
 {
diff --git a/desktop_blocks/udp/shared.hpp b/desktop_blocks/udp/shared.hpp
index 522ea32..708cdf7 100644
--- a/desktop_blocks/udp/shared.hpp
+++ b/desktop_blocks/udp/shared.hpp
@@ -35,6 +35,13 @@ struct GenericDatagramSocket {
                                             const std::string& dest_addr_str);
 
     ~GenericDatagramSocket();
+
+    // Owns the descriptor and the bound path: may be moved, never copied
+    GenericDatagramSocket(const GenericDatagramSocket&) = delete;
+    GenericDatagramSocket& operator=(const GenericDatagramSocket&) = delete;
+    GenericDatagramSocket(GenericDatagramSocket&& other) noexcept;
+    GenericDatagramSocket& operator=(GenericDatagramSocket&&) = delete;
+
     void bind(const std::string& bind_addr_or_path, uint16_t port = 0);
     ssize_t send(const uint8_t* data, size_t len) const;
     ssize_t recv(uint8_t* buffer, size_t max_len, int flags = 0) const;
-- 
2.43.0


From 2eb6a830a3f731968d8d1dcd93c0d396007707ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 20/26] fix: read the logger's started flag under its lock

---
 desktop_logger/desktop_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index 23ad671..ce71569 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -92,9 +92,9 @@ namespace cler {
 
 logger_retval_enum reset_logfile(const char *log_filepath) noexcept {
     if (!log_filepath) return cler::LOGGER_FILEPATH_EMPTY;
-    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
 
     std::lock_guard<std::mutex> lock(log_mutex);
+    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
     _unguarded_close_log_file();
 
     _log_filepath = log_filepath;
-- 
2.43.0


From 3f9a0b95c0dbf53fa99544092a0acdbd83797f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 21/26] fix: GUI blocks touch data shared with the worker only
 under their lock

---
 desktop_blocks/adsb/adsb_aggregate.hpp   | 11 +++++++++--
 desktop_blocks/plots/plot_cspectrum.cpp  |  3 +++
 desktop_blocks/plots/plot_timeseries.cpp |  3 +++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5893455..5adae79 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -5,6 +5,7 @@
 #include "adsb_coastline_loader.hpp"
 #include "modes.h"
 #include "cpr.h"
+#include <mutex>
 #include <unordered_map>
 #include <imgui.h>
 #include <cmath>
@@ -47,6 +48,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Get or create aircraft state for this ICAO
             uint32_t icao = (msg.aa1 << 16) | (msg.aa2 << 8) | msg.aa3;
+            std::unique_lock<std::mutex> lock(_aircraft_mutex);
             ADSBState& state = _aircraft[icao];
 
             if (state.icao == 0) {
@@ -139,8 +141,9 @@ struct ADSBAggregateBlock : public cler::BlockBase {
             // Always update last_update_time and message_count
             state.last_update_time = now;
             state.message_count++;
+            lock.unlock();
 
-            // Fire callback if state changed
+            // Fire callback if state changed (only this thread changes states, so no lock is needed to show it)
             if (state_changed && _callback) {
                 _callback(state, _callback_context);
             }
@@ -150,6 +153,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t get_aircrafts(ADSBState* buf, size_t max_count) const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         size_t count = 0;
         for (const auto& pair : _aircraft) {
             if (count >= max_count) break;
@@ -159,6 +163,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t aircraft_count() const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         return _aircraft.size();
     }
 
@@ -196,7 +201,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Draw info text
         ImGui::SetCursorScreenPos(ImVec2(canvas_pos.x + INFO_TEXT_OFFSET_X, canvas_p1.y - INFO_TEXT_OFFSET_Y));
         ImGui::Text("Aircraft: %zu | Center: %.2f°N, %.2f°W | Zoom: %.1fx",
-                    _aircraft.size(), _map_center_lat, -_map_center_lon, _map_zoom);
+                    aircraft_count(), _map_center_lat, -_map_center_lon, _map_zoom);
 
         // Handle mouse interactions
         handle_map_interaction(canvas_pos, canvas_size);
@@ -235,6 +240,7 @@ private:
     static constexpr float INITIAL_WINDOW_SIZE_Y = 800.0f;
 
     std::unordered_map<uint32_t, ADSBState> _aircraft;
+    mutable std::mutex _aircraft_mutex; // the worker updates the table, other threads render and query it
     OnAircraftUpdateCallback _callback;
     void* _callback_context;
 
@@ -328,6 +334,7 @@ private:
     }
 
     void draw_aircraft(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         for (const auto& pair : _aircraft) {
             const ADSBState& state = pair.second;
 
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 870c003..15bf4de 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -138,6 +138,9 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
         return cler::Error::NotEnoughSamples;
     }
 
+    // render() takes its snapshot from the same channels
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
+
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
             ? (_signal_channels[i].size() + work_size - _buffer_size) : 0;
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 33f6d8d..b452044 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -92,6 +92,9 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
         return cler::Error::NotEnoughSamples;
     }
 
+    // render() takes its snapshot from the same channels
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
+
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
 
-- 
2.43.0


From ceb40d144b100a69ebbd24f0332b58e42fea10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 22/26] fix: plots take at most one plot buffer of samples per
 call

---
 desktop_blocks/plots/plot_cspectrum.cpp  | 4 ++++
 desktop_blocks/plots/plot_timeseries.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 15bf4de..e7bc837 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -137,6 +137,10 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // channels may hold more than was asked for; the plot buffers do not
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
 
     // render() takes its snapshot from the same channels
     std::lock_guard<std::mutex> lock(_snapshot_mutex);
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index b452044..ea61c1e 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -91,6 +91,10 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // channels may hold more than was asked for; the plot buffers do not
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
 
     // render() takes its snapshot from the same channels
     std::lock_guard<std::mutex> lock(_snapshot_mutex);
-- 
2.43.0


From 7db65fee4e0f03362e09f9e56c2fc867615095aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 23/26] fix: ADSBDecoderBlock keeps no counters shared by all
 decoders

The function-local statics were incremented by every decoder, each on its own
worker, without synchronisation: a data race whose results nothing used.
---
 desktop_blocks/adsb/adsb_decoder.hpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index d8d485a..24829b6 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -37,9 +37,6 @@ struct ADSBDecoderBlock : public cler::BlockBase {
     }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<mode_s_msg>* out) {
-        static size_t call_count = 0;
-        static size_t total_samples = 0;
-
         auto [read_ptr, read_size] = in.read_dbf();
 
         // Mode S detection requires at least MODES_LONG_MSG_SAMPLES samples
@@ -60,9 +57,6 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
         in.commit_read(to_process);
 
-        total_samples += to_process;
-        call_count++;
-
         CallbackContext ctx;
         ctx.out_channel = out;
         ctx.df_filter = _df_filter;
@@ -94,14 +88,6 @@ private:
     };
 
     static void on_message_detected(mode_s_t* self, struct mode_s_msg* mm, void* context) {
-        static size_t total_messages = 0;
-        static size_t good_crc_messages = 0;
-
-        total_messages++;
-        if (mm->crcok) {
-            good_crc_messages++;
-        }
-
         (void)self;
         CallbackContext* ctx = static_cast<CallbackContext*>(context);
 
-- 
2.43.0


From 1b13acca1f5304383a2af3db81bce2203b399a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 24/26] fix: ADSBDecoderBlock::set_df_filter is safe while the
 decoder runs

The filter is documented as changeable from another thread but was a plain
integer read by the worker.
---
 desktop_blocks/adsb/adsb_decoder.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index 24829b6..c9d155f 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -5,6 +5,7 @@
 #include "desktop_blocks/adsb/modes_2400.h"
 #include <cstring>
 #include <algorithm>
+#include <atomic>
 
 struct ADSBDecoderBlock : public cler::BlockBase {
     cler::Channel<uint16_t> in;
@@ -26,7 +27,7 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         _df_filter(df_filter),
         _tmp_buffer(new uint16_t[BUFFER_ELEMENTS]) {
         // Validate filter: 0 is ambiguous, must use 0xFFFFFFFFU for "allow all messages"
-        assert(_df_filter != 0 && "df_filter=0 is invalid. Use 0xFFFFFFFFU to allow all message types.");
+        assert(df_filter != 0 && "df_filter=0 is invalid. Use 0xFFFFFFFFU to allow all message types.");
         mode_s_init(&_decoder_state);
     }
 
@@ -59,7 +60,7 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 
         CallbackContext ctx;
         ctx.out_channel = out;
-        ctx.df_filter = _df_filter;
+        ctx.df_filter = _df_filter.load(std::memory_order_relaxed);
 
         if (_mode == SampleRateMode::RATE_2MHZ) {
             mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
@@ -72,13 +73,13 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 
     // Set or change DF filter (thread-safe with atomic)
     void set_df_filter(uint32_t df_filter) {
-        _df_filter = df_filter;
+        _df_filter.store(df_filter, std::memory_order_relaxed);
     }
 
 private:
     mode_s_t _decoder_state;
     SampleRateMode _mode;
-    uint32_t _df_filter;
+    std::atomic<uint32_t> _df_filter;
     uint16_t* _tmp_buffer = nullptr;
 
     // Context for callback
-- 
2.43.0


From 8bb1486cb88f6cb674e1fccc1b497028399d9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 25/26] fix: ThreadX task policy keeps the thread, semaphore
 and stack where the kernel knows them

create_task returned the TX_THREAD and TX_SEMAPHORE by value: FlowGraph copies the
wrapper into its task array, so the kernel and the running thread were left with
the addresses of a dead temporary, and join_task waited on a copy of the semaphore.
The stack also leaked when the thread could not be created.
---
 .../task_policies/cler_threadx_tpolicy.hpp    | 51 ++++++++-----------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/include/task_policies/cler_threadx_tpolicy.hpp b/include/task_policies/cler_threadx_tpolicy.hpp
index b35cd7b..33f9f85 100644
--- a/include/task_policies/cler_threadx_tpolicy.hpp
+++ b/include/task_policies/cler_threadx_tpolicy.hpp
@@ -27,20 +27,19 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     using TaskPolicyBase<ThreadXTaskPolicy>::relax;
     using TaskPolicyBase<ThreadXTaskPolicy>::pin_to_core;
     
-    // Structure to hold task data
+    // Everything the kernel and the thread refer to by address. It stays where it
+    // was allocated until join_task, while the wrapper below is copied around.
     struct TaskData {
+        TX_THREAD thread;
+        TX_SEMAPHORE completion_sem;
+        UCHAR* stack_memory;
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        TX_SEMAPHORE* completion_sem;
-        volatile bool task_completed;
     };
     
     struct TaskWrapper {
-        TX_THREAD thread;
-        TX_SEMAPHORE completion_sem;
         TaskData* task_data;
-        UCHAR* stack_memory;
         volatile bool task_completed;
         bool is_valid;
     };
@@ -66,43 +65,36 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         wrapper.task_completed = false;
         wrapper.task_data = nullptr;
         
-        // Allocate stack memory
-        wrapper.stack_memory = new UCHAR[CLER_THREADX_STACK_SIZE];
-        if (!wrapper.stack_memory) {
-            return wrapper; // Failed allocation
-        }
+        auto* task_data = new TaskData{};
         
         // Create completion semaphore
         static char sem_name[] = "ClerCompletionSem";
         UINT status = tx_semaphore_create(
-            &wrapper.completion_sem,
+            &task_data->completion_sem,
             sem_name,
             0  // Initial count
         );
         
         if (status != TX_SUCCESS) {
-            delete[] wrapper.stack_memory;
+            delete task_data;
             return wrapper;
         }
         
-        // Allocate task data
+        // Allocate stack memory and the function object
         using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData;
+        task_data->stack_memory = new UCHAR[CLER_THREADX_STACK_SIZE];
         task_data->callable = new FuncType(std::forward<Func>(f));
         task_data->invoke = &TaskHelper<FuncType>::invoke;
         task_data->destroy = &TaskHelper<FuncType>::destroy;
-        task_data->completion_sem = &wrapper.completion_sem;
-        task_data->task_completed = false;
-        wrapper.task_data = task_data;
         
         // Create ThreadX thread
         static char thread_name[] = "ClerThread";
         status = tx_thread_create(
-            &wrapper.thread,                    // Thread control block
+            &task_data->thread,                 // Thread control block
             thread_name,                        // Thread name
             thread_entry_point,                 // Thread entry function
             (ULONG)task_data,                  // Thread input
-            wrapper.stack_memory,               // Stack start
+            task_data->stack_memory,            // Stack start
             CLER_THREADX_STACK_SIZE,           // Stack size
             CLER_THREADX_PRIORITY,             // Priority
             CLER_THREADX_PREEMPT_THRESHOLD,    // Preemption threshold
@@ -111,14 +103,14 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         );
         
         if (status != TX_SUCCESS) {
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_semaphore_delete(&task_data->completion_sem);
             task_data->destroy(task_data->callable);
+            delete[] task_data->stack_memory;
             delete task_data;
-            delete[] wrapper.stack_memory;
-            wrapper.task_data = nullptr;
             return wrapper;
         }
         
+        wrapper.task_data = task_data;
         wrapper.is_valid = true;
         return wrapper;
     }
@@ -126,20 +118,19 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     static void join_task(task_type& wrapper) {
         if (wrapper.is_valid && wrapper.task_data && !wrapper.task_completed) {
             // Wait for thread completion
-            tx_semaphore_get(&wrapper.completion_sem, TX_WAIT_FOREVER);
+            tx_semaphore_get(&wrapper.task_data->completion_sem, TX_WAIT_FOREVER);
             
             // Clean up thread
-            tx_thread_terminate(&wrapper.thread);
-            tx_thread_delete(&wrapper.thread);
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_thread_terminate(&wrapper.task_data->thread);
+            tx_thread_delete(&wrapper.task_data->thread);
+            tx_semaphore_delete(&wrapper.task_data->completion_sem);
             
             // Clean up memory
             wrapper.task_data->destroy(wrapper.task_data->callable);
+            delete[] wrapper.task_data->stack_memory;
             delete wrapper.task_data;
-            delete[] wrapper.stack_memory;
             
             wrapper.task_data = nullptr;
-            wrapper.stack_memory = nullptr;
             wrapper.is_valid = false;
             wrapper.task_completed = true;
         }
@@ -168,7 +159,7 @@ private:
         }
         
         // Signal completion
-        tx_semaphore_put(data->completion_sem);
+        tx_semaphore_put(&data->completion_sem);
         
         // Thread will be cleaned up by join_task
     }
-- 
2.43.0


From 207bf44851002f20b9b3ad26ee234943330c5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 26/26] fix: Zephyr task policy keeps the thread and semaphore
 where the kernel knows them

As for ThreadX: the k_thread and k_sem were copied after the kernel was given their
addresses. join_task also freed the thread's stack while it could still be returning
from k_sem_give; it now joins the thread first (the mock kernel gains k_thread_join).
---
 .../mock_environment/zephyr/kernel.h          | 15 ++++++++
 include/task_policies/cler_zephyr_tpolicy.hpp | 36 ++++++++++---------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
index 43d3987..c41e7f0 100644
--- a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
+++ b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
@@ -137,6 +137,21 @@ static inline int k_thread_create(k_thread_t* thread, k_thread_stack_t* stack,
     return 0;
 }
 
+static inline int k_thread_join(k_thread_t* thread, int32_t timeout) {
+    (void)timeout;
+    if (!thread) return -1;
+    if (thread->thread_ptr) {
+        if (thread->thread_ptr->joinable()) {
+            thread->thread_ptr->join();
+        }
+        delete thread->thread_ptr;
+        thread->thread_ptr = nullptr;
+    }
+    delete thread->entry_func;
+    thread->entry_func = nullptr;
+    return 0;
+}
+
 static inline void k_thread_join_and_destroy(k_thread_t* thread) {
     if (!thread) return;
     if (thread->thread_ptr) {
diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index 5961011..9c206b2 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -19,18 +19,19 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     using TaskPolicyBase<ZephyrTaskPolicy>::relax;
     using TaskPolicyBase<ZephyrTaskPolicy>::pin_to_core;
     
+    // Everything the kernel and the thread refer to by address. It stays where it
+    // was allocated until join_task, while the wrapper below is copied around.
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        struct k_sem* completion_sem;
-    };
-
-    struct TaskWrapper {
         struct k_thread thread_data;
         k_thread_stack_t* stack_mem;
         struct k_sem completion_sem;
-        TaskData* task_data;
+    };
+
+    struct TaskWrapper {
+        TaskData* task_data = nullptr;
         bool task_completed = false;
     };
 
@@ -51,23 +52,21 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     static task_type create_task(Func&& f) {
         task_type wrapper;
 
-        wrapper.stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
-        if (!wrapper.stack_mem) return wrapper;
-
-        k_sem_init(&wrapper.completion_sem, 0, 1);
-
         using FuncType = typename std::decay<Func>::type;
         auto* task_data = new TaskData{
             new FuncType(std::forward<Func>(f)),
             &TaskHelper<FuncType>::invoke,
             &TaskHelper<FuncType>::destroy,
-            &wrapper.completion_sem
+            {}, nullptr, {}
         };
 
         wrapper.task_data = task_data;
 
-        k_thread_create(&wrapper.thread_data,
-                        wrapper.stack_mem,
+        task_data->stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
+        k_sem_init(&task_data->completion_sem, 0, 1);
+
+        k_thread_create(&task_data->thread_data,
+                        task_data->stack_mem,
                         CLER_ZEPHYR_STACK_SIZE,
                         thread_entry_point,
                         task_data, nullptr, nullptr,
@@ -79,11 +78,16 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
 
     static void join_task(task_type& wrapper) {
         if (!wrapper.task_completed && wrapper.task_data) {
-            k_sem_take(&wrapper.completion_sem, K_FOREVER);
+            k_sem_take(&wrapper.task_data->completion_sem, K_FOREVER);
+
+            // The thread may still be returning from k_sem_give: it needs its
+            // control block and its stack until the kernel says it has ended
+            k_thread_join(&wrapper.task_data->thread_data, K_FOREVER);
 
             wrapper.task_data->destroy(wrapper.task_data->callable);
+            delete[] wrapper.task_data->stack_mem;
             delete wrapper.task_data;
-            delete[] wrapper.stack_mem;
+            wrapper.task_data = nullptr;
             wrapper.task_completed = true;
         }
     }
@@ -101,7 +105,7 @@ private:
         auto* data = static_cast<TaskData*>(p1);
         if (data && data->callable && data->invoke) {
             data->invoke(data->callable);
-            k_sem_give(data->completion_sem);
+            k_sem_give(&data->completion_sem);
         }
     }
 };
-- 
2.43.0

