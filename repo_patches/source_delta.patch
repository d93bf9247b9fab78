From 1775d95d987263dd2122c3d81f542baf2a4d3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 01/80] fix: parity of the occupied-mode count beyond 16 modes
 in imperative_operator

parity_number_of_bits folded only the lowest 16 bits, so signs were wrong as soon
as modes 16 and above contributed.
---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From 5c09c20ab218da1d0be1542dfa2f2c6ed47830b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 02/80] fix: Fock state of creation operators beyond mode 30 in
 hilbert_space::get_fock_state

1 << position is an int shift: undefined from position 31 on and sign-extended.
---
 c++/triqs/hilbert_space/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/hilbert_space.hpp b/c++/triqs/hilbert_space/hilbert_space.hpp
index 85e5560..3332eb8 100644
--- a/c++/triqs/hilbert_space/hilbert_space.hpp
+++ b/c++/triqs/hilbert_space/hilbert_space.hpp
@@ -107,7 +107,7 @@ namespace triqs {
  */
       fock_state_t get_fock_state(fundamental_operator_set const &fops, std::set<fundamental_operator_set::indices_t> const &indices) const {
         fock_state_t f = 0;
-        for (auto const &index : indices) f += 1 << fops[index];
+        for (auto const &index : indices) f += fock_state_t(1) << fops[index];
         return f;
       }
 
-- 
2.43.0


From 6dcff773998400ea9abbe253ce1d373dc22d62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 03/80] fix: merge_subspaces left several connections between
 merged subspaces

---
 c++/triqs/hilbert_space/space_partition.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index b69e5ba..fe6808d 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -119,7 +119,8 @@ namespace triqs {
         matrix_element_map_t Cd_elements, C_elements;
         std::multimap<idx_t, idx_t> Cd_connections, C_connections;
 
-        auto size = tmp_state.size();
+        auto size             = tmp_state.size();
+        auto n_subspaces_orig = n_subspaces();
 
         // Fill connection multimaps
         for (idx_t i = 0; i < size; ++i) {
@@ -185,6 +186,9 @@ namespace triqs {
 
         _update_index();
 
+        // Merged subspaces can be connected to several subspaces through different zigzags: repeat until nothing changes
+        if (n_subspaces() != n_subspaces_orig) merge_subspaces(Cd, C, false);
+
         return std::make_pair(Cd_elements, C_elements);
       }
 
-- 
2.43.0


From 0fb928d300ce024535cdc3844a7a7a2bc3452bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 04/80] fix: block_matrix_from_op accepted terms outside the
 block structure

---
 c++/triqs/operators/util/extractors.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..920bd71 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -279,6 +279,7 @@ namespace triqs::operators::utils {
     auto name_to_bl = [&](auto &bl_name) {
       auto it =
          std::find_if(cbegin(gf_struct), cend(gf_struct), [&bl_name](auto const &blname_and_size) { return bl_name == blname_and_size.first; });
+      if (it == cend(gf_struct)) TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Block " << bl_name << " is not part of gf_struct";
       return std::distance(cbegin(gf_struct), it);
     };
 
@@ -287,7 +288,7 @@ namespace triqs::operators::utils {
       scalar_t const &coef = term.coef;
 
       if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+          and m[1].indices.size() == 2) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
-- 
2.43.0


From 6127859df06382a41867b1b4a1d681d50ba92f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 05/80] fix: det_manip try_insert_k/try_remove_k of a single
 row wrote into unsized work arrays

---
 c++/triqs/det_manip/det_manip.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..94e8a31 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -144,7 +144,6 @@ namespace triqs {
         // MC = C*A^(-1)
         matrix_type MB, MC, B, C, ksi;
         void resize(long N, long k) {
-          if (k < 2) return;
           x.resize(k);
           y.resize(k);
           i.resize(k);
-- 
2.43.0


From 6156d17752cd02b4f239eb62752c4e90acd10594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 06/80] fix: det_manip swap and moves left settings and the
 size of the work arrays behind

---
 c++/triqs/det_manip/det_manip.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 94e8a31..85041d8 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -198,6 +198,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -207,8 +209,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From 4a13b3c2600f3e685ac6fe2ae9d6dc8df9952243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 07/80] fix: det_manip h5_read did not size the work arrays for
 the matrix it read

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 85041d8..c339676 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -106,6 +106,8 @@ namespace triqs {
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
         g.last_try = NoTry;
+        g.w1.resize(g.Nmax);
+        g.wk.resize(g.Nmax, g.kmax);
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
         h5_read(gr, "row_num", g.row_num);
-- 
2.43.0


From 924ac7419cea54627cff48a54c2ece3db19f455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 08/80] fix: mc_generic dereferenced a null node monitor when a
 cycle threw without an MPI environment

---
 c++/triqs/mc_tools/mc_generic.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 073c9e6..aa13859 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -251,7 +251,7 @@ namespace triqs::mc_tools {
       triqs::signal_handler::start();
       done_percent = 0;
       nmeasures    = 0;
-      bool stop_it = false, finished = false, infinite = (n_cycles < 0);
+      bool stop_it = false, finished = false, infinite = (n_cycles < 0), emergency = false;
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -286,10 +286,9 @@ namespace triqs::mc_tools {
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
-          if (rethrow_exception)
-            node_monitor->request_emergency_stop();
-          else
-            c.abort(2);
+          if (!rethrow_exception) c.abort(2);
+          emergency = true;
+          if (node_monitor) node_monitor->request_emergency_stop();
         }
 
         // recompute fraction done
@@ -308,6 +307,7 @@ namespace triqs::mc_tools {
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
+        stop_it |= emergency;
         if (node_monitor) stop_it |= node_monitor->emergency_occured();
 
       } // end main NC loop
@@ -320,8 +320,9 @@ namespace triqs::mc_tools {
 
       if (node_monitor) {
         node_monitor->finalize_communications();
-        if (node_monitor->emergency_occured()) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
+        emergency |= node_monitor->emergency_occured();
       }
+      if (emergency) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
 
       // final reporting
       if (status == 1) report << "mc_generic stops because of stop_callback" << std::endl;
-- 
2.43.0


From 53b03d30b97a007b44360a56eb1fa59e6837e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 09/80] fix: mc_generic reported a run whose last cycle was
 interrupted by a signal as completed

---
 c++/triqs/mc_tools/mc_generic.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index aa13859..732770d 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -251,7 +251,7 @@ namespace triqs::mc_tools {
       triqs::signal_handler::start();
       done_percent = 0;
       nmeasures    = 0;
-      bool stop_it = false, finished = false, infinite = (n_cycles < 0), emergency = false;
+      bool stop_it = false, finished = false, infinite = (n_cycles < 0), emergency = false, interrupted = false;
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -283,6 +283,7 @@ namespace triqs::mc_tools {
         } catch (triqs::signal_handler::exception const &) {
           std::cerr << "mc_generic: Signal caught on node " << c.rank() << "\n" << std::endl;
           // current cycle interrupted, stop calculation below
+          interrupted = true;
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
@@ -303,7 +304,7 @@ namespace triqs::mc_tools {
           if (do_measure) report(3) << AllMeasures.report();
           next_info_time = 1.25 * timer_run + 2.0; // Increase time interval non-linearly
         }
-        finished = NC + 1 >= n_cycles and not infinite;
+        finished = NC + 1 >= n_cycles and not infinite and not interrupted;
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
-- 
2.43.0


From b20ba881088a2db0095ac4f3764e27e95e1638aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 10/80] fix: mc_generic run of zero cycles left its timer
 running and the number of measures unset

---
 c++/triqs/mc_tools/mc_generic.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 732770d..0c7e134 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -245,12 +245,12 @@ namespace triqs::mc_tools {
 
       AllMoves.clear_statistics();
 
-      timer_run = {};
-      timer_run.start();
-      if (n_cycles == 0) return 0;
-      triqs::signal_handler::start();
+      timer_run    = {};
       done_percent = 0;
       nmeasures    = 0;
+      if (n_cycles == 0) return 0;
+      timer_run.start();
+      triqs::signal_handler::start();
       bool stop_it = false, finished = false, infinite = (n_cycles < 0), emergency = false, interrupted = false;
       int NC                = 0;
       double next_info_time = 0.1;
@@ -433,7 +433,7 @@ namespace triqs::mc_tools {
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
     utility::report_stream report;
-    int64_t nmeasures, current_cycle_number = 0;
+    int64_t nmeasures = 0, current_cycle_number = 0;
     utility::timer timer_run, timer_accumulation, timer_warmup;
     std::function<void()> after_cycle_duty;
     MCSignType sign        = 1;
-- 
2.43.0


From 30506b3e32926d72516049276f9812204e0fec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 11/80] fix: copies of RandMT restarted the sequence or shared
 the state of the original

---
 c++/triqs/mc_tools/MersenneRNG.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/MersenneRNG.hpp b/c++/triqs/mc_tools/MersenneRNG.hpp
index 4ed6581..7ba641a 100644
--- a/c++/triqs/mc_tools/MersenneRNG.hpp
+++ b/c++/triqs/mc_tools/MersenneRNG.hpp
@@ -142,7 +142,16 @@ namespace triqs {
 
         RandMT(uint32 seed) { seedMT(seed); }
 
-        RandMT(RandMT const &R) { seedMT(R.seed_save); }
+        RandMT(RandMT const &R) { *this = R; }
+
+        RandMT &operator=(RandMT const &R) {
+          for (int j = 0; j < N + 1; ++j) state[j] = R.state[j];
+          next      = state + (R.next - R.state);
+          initseed  = R.initseed;
+          left      = R.left;
+          seed_save = R.seed_save;
+          return *this;
+        }
 
         void seedMT(uint32 seed) {
 
@@ -197,7 +206,9 @@ namespace triqs {
 
           uint32 x = (seed | 1U) & 0xFFFFFFFFU, *s = state;
           int j;
-          left = 0;
+          left     = 0;
+          next     = state;
+          state[N] = 0;
           for (*s++ = x, j = N; --j; *s++ = (x *= 69069U) & 0xFFFFFFFFU)
             ;
         }
-- 
2.43.0


From 58ac5d7abb0feb19ef1391fcd6d686fd721aaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 12/80] fix: a default constructed buffered_function read
 outside of its buffer instead of throwing

---
 c++/triqs/utility/buffered_function.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/buffered_function.hpp b/c++/triqs/utility/buffered_function.hpp
index 7be2d61..2518290 100644
--- a/c++/triqs/utility/buffered_function.hpp
+++ b/c++/triqs/utility/buffered_function.hpp
@@ -54,18 +54,18 @@ namespace triqs {
 
       /// Returns the next element. Refills the buffer if necessary.
       R operator()() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index++];
       }
 
       /// Returns the future next element, without increasing the index. Refills the buffer if necessary.
       R preview() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index];
       }
 
       private:
-      size_t index;
+      size_t index = 0;
       std::vector<R> buffer;
       std::function<void(buffered_function *)> refill; // this refills the buffer and reset index of a buffered_function.
                                                        // NB : cannot capture this in refill because we want the object to be copyable and movable
-- 
2.43.0


From c35fb18e34724778ae7bb99f9f3f7b1f2d1457eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 13/80] fix: the copy constructor of random_generator was
 declared but never defined

---
 c++/triqs/mc_tools/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mc_tools/random_generator.hpp b/c++/triqs/mc_tools/random_generator.hpp
index df0610f..3bd78cc 100644
--- a/c++/triqs/mc_tools/random_generator.hpp
+++ b/c++/triqs/mc_tools/random_generator.hpp
@@ -54,7 +54,7 @@ namespace triqs {
       random_generator() : random_generator("mt19937", 198) {}
 
       ///
-      random_generator(random_generator const &p);
+      random_generator(random_generator const &p) = default;
 
       random_generator(random_generator &&) = default;
 
-- 
2.43.0


From 2af95f04d588056419a2a8595f499ec4e1d469b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 14/80] fix: log_binning h5 storage lost the maximum number of
 bins, so a restored accumulator ignored further data

---
 c++/triqs/stat/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..e490105 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -239,6 +239,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -248,6 +249,7 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      if (gr.has_key("max_n_bins")) h5_read(gr, "max_n_bins", l.max_n_bins); // absent from older files
     }
 
   } // namespace details
-- 
2.43.0


From b7ee016f230fdcad640e8f608c6fae04cb3b54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 15/80] fix: jackknife_mpi used the local or an undefined
 number of data for the average and error

---
 c++/triqs/stat/jackknife.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..0b782e5 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = make_regular(f(ja.average()...));
       auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto average       = make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From c0e8d6b0bdc08754afa1666508f2d7f210e13398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 16/80] fix: jackknife read the first element of an empty
 series before rejecting it

---
 c++/triqs/stat/jackknife.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index 0b782e5..294bf2d 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -40,8 +40,8 @@ namespace triqs::stat {
 
       // On each node independently
       jackknifed_t(V const &bins) : original_series(bins) {
-        // ENSURE(bins.size()>0)
         n_tot = original_series.size();
+        if (n_tot == 0) TRIQS_RUNTIME_ERROR << "No data !";
         // compute the sum of B into a new T.
         sum = original_series[0];
         for (long i = 1; i < original_series.size(); ++i) sum += original_series[i];
-- 
2.43.0


From ee6fb1adaa1fa71558deb20aba9044483d62a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 17/80] fix: a NaN sample was written outside of the bins of a
 histogram

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..75bbe5b 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (!((x >= a) && (x <= b))) // also true for NaN
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From f6f7f1c3e06a42004b27259cfc33b46468bb8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 18/80] fix: time_segment::make_time_pt(beta) overflowed the
 grid position

---
 c++/triqs/utility/time_pt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/utility/time_pt.hpp b/c++/triqs/utility/time_pt.hpp
index 17f9463..e43ad2d 100644
--- a/c++/triqs/utility/time_pt.hpp
+++ b/c++/triqs/utility/time_pt.hpp
@@ -165,7 +165,9 @@ namespace triqs {
       /// ??
       time_pt make_time_pt(double x) const {
         EXPECTS(0 <= x && x <= beta);
-        uint64_t n = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        double r = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        // static_cast<double>(Nmax) is 2^64, which does not fit into n
+        uint64_t n = (r >= static_cast<double>(time_pt::Nmax) ? time_pt::Nmax : static_cast<uint64_t>(r));
         return time_pt(n, beta);
       }
     };
-- 
2.43.0


From 107de621abbc7c4d417862b08d0b763fc8fe60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 19/80] fix: the closest point of a linear mesh with a zero
 step was undefined (0 * inf)

---
 c++/triqs/mesh/bases/linear.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/bases/linear.hpp b/c++/triqs/mesh/bases/linear.hpp
index dc91d8e..c31441f 100644
--- a/c++/triqs/mesh/bases/linear.hpp
+++ b/c++/triqs/mesh/bases/linear.hpp
@@ -135,6 +135,7 @@ namespace triqs::mesh::details {
 
     [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const noexcept {
       EXPECTS(is_value_valid(cmp.value));
+      if (delta_x == 0) return 0; // all the points of the mesh have the same value
       return index_t((cmp.value - xmin) * delta_x_inv + 0.5);
     }
 
@@ -221,7 +222,7 @@ namespace triqs::mesh::details {
     auto evaluate(auto const &f, double x) const {
       EXPECTS(this->is_value_valid(x) and this->size() > 1);
       x        = std::max(x, this->xmin);
-      double a = (x - this->xmin) * this->delta_inv();
+      double a = (delta_x == 0 ? 0 : (x - this->xmin) * this->delta_inv());
       long i   = std::min(static_cast<long>(a), this->size() - 2);
       double w = std::min(a - i, 1.0); //NOLINT
       return (1 - w) * f(i) + w * f(i + 1);
-- 
2.43.0


From 65de7e32a9028d7ae941a8e5286cb5bbb5a068b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 20/80] fix: the quotient of two matsubara_freq returned their
 product

---
 c++/triqs/mesh/domains/matsubara.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/domains/matsubara.hpp b/c++/triqs/mesh/domains/matsubara.hpp
index 59882ef..d0558c1 100644
--- a/c++/triqs/mesh/domains/matsubara.hpp
+++ b/c++/triqs/mesh/domains/matsubara.hpp
@@ -68,7 +68,7 @@ namespace triqs::mesh {
   inline matsubara_freq operator-(matsubara_freq const &mp) { return {-(mp.n + (mp.statistic == Fermion ? 1 : 0)), mp.beta, mp.statistic}; }
 
   inline std::complex<double> operator/(matsubara_freq const &x, matsubara_freq const &y) {
-    return std::complex<double>{x} * std::complex<double>{y};
+    return std::complex<double>{x} / std::complex<double>{y};
   }
 
   inline std::complex<double> operator*(matsubara_freq const &x, matsubara_freq const &y) {
-- 
2.43.0


From 31fe1ef3caf2c6642d3774ba1d588ef585264721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 21/80] fix: meshes with permuted extents or parameters
 compared equal (equality of an order-independent hash)

---
 c++/triqs/mesh/brzone.hpp     | 2 +-
 c++/triqs/mesh/cyclat.hpp     | 2 +-
 c++/triqs/mesh/dlr.hpp        | 4 +++-
 c++/triqs/mesh/dlr_imfreq.hpp | 4 +++-
 c++/triqs/mesh/dlr_imtime.hpp | 4 +++-
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 5241c95..72802e7 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -98,7 +98,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash() and dims_ == M.dims_ and units_ == M.units_; }
     bool operator!=(brzone const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 88f7a58..caef0ae 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -83,7 +83,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash() and dims_ == M.dims_ and units_ == M.units_; }
     bool operator!=(cyclat const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/dlr.hpp b/c++/triqs/mesh/dlr.hpp
index dc211f2..7b56d0d 100644
--- a/c++/triqs/mesh/dlr.hpp
+++ b/c++/triqs/mesh/dlr.hpp
@@ -97,7 +97,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr const &m) const {
+      return _mesh_hash == m._mesh_hash and std::tie(_beta, _statistic, _w_max, _eps) == std::tie(m._beta, m._statistic, m._w_max, m._eps);
+    }
     bool operator!=(dlr const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imfreq.hpp b/c++/triqs/mesh/dlr_imfreq.hpp
index 1a1b56b..ff7f88a 100644
--- a/c++/triqs/mesh/dlr_imfreq.hpp
+++ b/c++/triqs/mesh/dlr_imfreq.hpp
@@ -92,7 +92,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imfreq const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr_imfreq const &m) const {
+      return _mesh_hash == m._mesh_hash and std::tie(_beta, _statistic, _w_max, _eps) == std::tie(m._beta, m._statistic, m._w_max, m._eps);
+    }
     bool operator!=(dlr_imfreq const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imtime.hpp b/c++/triqs/mesh/dlr_imtime.hpp
index acee943..2a51ff8 100644
--- a/c++/triqs/mesh/dlr_imtime.hpp
+++ b/c++/triqs/mesh/dlr_imtime.hpp
@@ -91,7 +91,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imtime const &m) const { return _mesh_hash == m._mesh_hash and _statistic == m._statistic; }
+    bool operator==(dlr_imtime const &m) const {
+      return _mesh_hash == m._mesh_hash and std::tie(_beta, _statistic, _w_max, _eps) == std::tie(m._beta, m._statistic, m._w_max, m._eps);
+    }
     bool operator!=(dlr_imtime const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
-- 
2.43.0


From a93d353c8078ec630c8055ff7786bf6485a3ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 22/80] fix: the default Brillouin zone had the identity
 instead of the reciprocal matrix of its lattice

---
 c++/triqs/lattice/brillouin_zone.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index f3687f9..db048bc 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -31,10 +31,7 @@ namespace triqs {
       using value_t = k_t; // domain concept
 
       // Default construction, 3d cubic lattice
-      brillouin_zone() {
-        K_reciprocal     = nda::eye<double>(3);
-        K_reciprocal_inv = K_reciprocal;
-      }
+      brillouin_zone() : brillouin_zone(bravais_lattice{}) {}
 
       brillouin_zone(brillouin_zone &&)                 = default;
       brillouin_zone(brillouin_zone const &)            = default;
-- 
2.43.0


From d3a047b3aff7d1226806bb1f6455245065691e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 23/80] fix: pade_approximant left the precision of GMP changed
 when a value was zero

---
 c++/triqs/utility/pade_approximants.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/utility/pade_approximants.hpp b/c++/triqs/utility/pade_approximants.hpp
index 3472197..69abada 100644
--- a/c++/triqs/utility/pade_approximants.hpp
+++ b/c++/triqs/utility/pade_approximants.hpp
@@ -73,8 +73,11 @@ namespace triqs {
 
         int N = z_in.size();
 
-        // Change the default precision of GMP floats.
-        unsigned long old_prec = mpf_get_default_prec();
+        // Change the default precision of GMP floats, and restore it on exit (also on error).
+        struct restore_prec {
+          unsigned long old_prec = mpf_get_default_prec();
+          ~restore_prec() { mpf_set_default_prec(old_prec); }
+        } restore;
         mpf_set_default_prec(GMP_default_prec); // How do we determine it?
 
         nda::array<gmp_complex, 2> g(N, N);
@@ -101,9 +104,6 @@ namespace triqs {
           gmp_complex gj = g(j, j);
           a(j)           = dcomplex(real(gj).get_d(), imag(gj).get_d());
         }
-
-        // Restore the precision.
-        mpf_set_default_prec(old_prec);
       }
 
       // give the value of the pade continued fraction at complex number e
-- 
2.43.0


From 88f6a27d2c67280fa301d2fd85a670bac816d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 24/80] fix: send and recv of the serial mpi module never
 stored the message

---
 python/triqs/utility/mpi_nompi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index bc12256..2ce9570 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -60,10 +60,12 @@ def all_reduce(x, comm=world, op=lambda x, y: x + y):
     return x
 
 def send(val, dest):
+    global _sendval
     _sendval = val
     return
 
 def recv(source = 0):
+    global _sendval
     if _sendval is None:
         raise Exception('send val not set')
     recval = _sendval
-- 
2.43.0


From 8eb7c29e9bd37092b696d626c970777cba69d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 25/80] fix: the master unpacked the host name received from a
 node

---
 python/triqs/utility/mpi_mpi4py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 0e3e787..c87c714 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -118,7 +118,7 @@ def master_gets_host_names():
     HostNames[rank] = gethostname()
     if is_master_node() :
       for proc in range (1,size) :
-        HostNames[proc],status = recv(proc)
+        HostNames[proc] = recv(proc)
     else:
       send(gethostname(),master)
     barrier()
-- 
2.43.0


From 955025012ebf7f328fa7fdaffac61835903138eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 26/80] fix: LazyExpr.copy wrapped the children of the
 expression in a tuple

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index bb81536..0d27370 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -59,7 +59,7 @@ class LazyExpr (__aux):
 
     def copy(self):
         """ Deep copy"""
-        return LazyExpr(self.tag, self.childs)
+        return LazyExpr(self.tag, *[c.copy() if isinstance(c, LazyExpr) else c for c in self.childs])
 
     def set_from(self, y):
         """ self:= y """
-- 
2.43.0


From 26606ce6a7101b378939adad089f3f903943d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 27/80] fix: transform did not rewrite the terminals inside of
 a lazy expression

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 0d27370..c1a3c84 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -120,7 +120,7 @@ def transform (expr, Fnode, Fterm = lambda x: x ):
            it transforms the expression recursively
     """
     if expr.tag == "T": return LazyExpr("T", Fterm(expr.childs[0]))
-    tag, ch = Fnode (expr.tag, [transform (e, Fnode) for e in expr.childs])
+    tag, ch = Fnode (expr.tag, [transform (e, Fnode, Fterm) for e in expr.childs])
     ch = [LazyExpr(x) for x in ch]
     return LazyExpr (tag, *ch)
 
-- 
2.43.0


From 716c15953819d39dc7d599ab14b5704abc1780e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 28/80] fix: the in-place product of two Gf rejected square
 instead of nonsquare matrices

---
 python/triqs/gf/gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index b7c1a99..706f1b4 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -483,8 +483,8 @@ class Gf(metaclass=AddMethod):
 
             if self.target_rank == 2:
                 if arg.target_rank == 2:
-                    assert arg.target_shape[0] != arg.target_shape[1], "In place multiplication not supported if"
-                    "the argument is a nonsquare matrix. Use regular multiplication instead."
+                    assert arg.target_shape[0] == arg.target_shape[1], "In place multiplication not supported if " \
+                        "the argument is a nonsquare matrix. Use regular multiplication instead."
                     np.matmul(self.data, arg.data, out=self.data)
                 elif arg.target_rank == 0:
                     self.data[:] *= arg.data[..., None, None]
-- 
2.43.0


From 618159e086b2f881161a2b005de130058480b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 29/80] fix: the product of a Gf and a nonsquare matrix was
 broadcast into the shape of the Gf

---
 python/triqs/gf/gf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 706f1b4..9c5c214 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -503,6 +503,7 @@ class Gf(metaclass=AddMethod):
         elif isinstance(arg, np.ndarray):
             assert len(arg.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
+            assert arg.shape[0] == arg.shape[1], "Multiplication only supported for square matrices. Use from_L_G_R instead."
             self.data[:] = np.tensordot(self.data, arg, axes=([-1], [-2]))
         else:
             assert False, "Invalid operand type for Gf in-place multiplication"
@@ -555,6 +556,7 @@ class Gf(metaclass=AddMethod):
         if isinstance(y, np.ndarray):
             assert len(y.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
+            assert y.shape[0] == y.shape[1], "Multiplication only supported for square matrices. Use from_L_G_R instead."
             c.data[:] = np.moveaxis(np.tensordot(y, self.data, axes=([-1], [-2])), 0, -2)
         elif isinstance(y, numbers.Number):
             c *= y
-- 
2.43.0


From 75b2f4f10f5d138fb86fcd647fea0019060e035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 30/80] fix: Gf.copy_from changed the mesh before rejecting
 data of another shape

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 9c5c214..7f9430d 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -261,8 +261,8 @@ class Gf(metaclass=AddMethod):
 
     def copy_from(self, another):
         """Copy the data of another Greens function into self."""
-        self._mesh.copy_from(another.mesh)
         assert self._data.shape == another._data.shape, "Shapes are incompatible: " + str(self._data.shape) + " vs " + str(another._data.shape)
+        self._mesh.copy_from(another.mesh)
         self._data[:] = another._data[:]
         self.__check_invariants()
 
-- 
2.43.0


From 346cc2ae5521bc9901fd43534f342483fae5c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 31/80] fix: evaluation of a lazy expression of Gf used
 undefined names

---
 python/triqs/gf/descriptor_base.py | 2 +-
 python/triqs/gf/gf.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index f194e9a..9129d58 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -35,7 +35,7 @@ class LazyCTX:
     def __eq__ (self, y):
         return isinstance(y, self.__class__) and self._is_compatible_for_ops(y.G)
     def __call__ (self, x): 
-        if not isinstance(x, descriptor_base.Base): return x
+        if not isinstance(x, Base): return x
         tmp = self.G.copy()
         x(tmp)
         return tmp
diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 7f9430d..fd7c25b 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -377,7 +377,7 @@ class Gf(metaclass=AddMethod):
     # --------------  Lazy system -------------------------------------
 
     def __lazy_expr_eval_context__(self) : 
-        return LazyCTX(self)
+        return descriptor_base.LazyCTX(self)
 
     def __lshift__(self, A):
         """ A can be two things:
-- 
2.43.0


From 58e0a7da3fc731a10271122c2ea1b2967e4aba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 32/80] fix: Gf.x_data_view returned mesh points instead of
 their values on real meshes

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index fd7c25b..bcebb95 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -774,7 +774,7 @@ class Gf(metaclass=AddMethod):
         """
         
         X = [x.imag for x in self.mesh] if isinstance(self.mesh, meshes.MeshImFreq) \
-            else [x for x in self.mesh]
+            else [x.value for x in self.mesh]
         
         X, data = np.array(X), self.data
         if x_window:
-- 
2.43.0


From 3d665b152183d1a36b96c802e09daa136fafcbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 33/80] fix: BlockGf.all_indices yielded ranges instead of
 indices

---
 python/triqs/gf/block_gf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ba6c8bb..ffca211 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -193,10 +193,8 @@ class BlockGf:
     def all_indices(self):
        """  An Iterator on BlockGf indices and indices of the blocs of the form: block_index,n1,n2, where n1,n2 are indices of the block"""
        for sig,g in self:
-          val = g.indices
-          for x in val:
-              for y in val:
-                  yield  (sig,x,y)
+          for ind in g.target_indices:
+              yield (sig,) + ind
 
     @property
     def n_blocks(self):
-- 
2.43.0


From 4aff306908bfd75ad5784d1983dcac103aa7634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 34/80] fix: in-place operations of BlockGf with a lazy
 expression had no effect

---
 python/triqs/gf/block_gf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ffca211..ac9e97b 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -306,9 +306,9 @@ class BlockGf:
             for (n,g) in self: self[n] += arg[n]
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist), "list of incorrect length"
-            for l,g in zip(arg,self.__GFlist): g +=l
+            for l,i in zip(arg,self.__indices): self[i] += l
         else:
-            for i,g in self: g += arg
+            for i,g in self: self[i] += arg
         return self
 
     def __add__(self,y):
@@ -323,9 +323,9 @@ class BlockGf:
            for (n,g) in self: self[n] -= arg[n]
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l,g in zip(arg,self.__GFlist): g -=l
+            for l,i in zip(arg,self.__indices): self[i] -= l
         else:
-            for i,g in self: g -= arg
+            for i,g in self: self[i] -= arg
         return self
 
     def __sub__(self,y):
@@ -342,7 +342,7 @@ class BlockGf:
         if isinstance(arg, BlockGf):
             for (n,g) in self: self[n] *= arg[n]
         else:
-            for i,g in self: g *= arg
+            for i,g in self: self[i] *= arg
         return self
 
     def __mul__(self,y):
-- 
2.43.0


From cd695271fae8642c985be5de7280e284de71fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 35/80] fix: BlockGf.copy_from failed for scalar valued blocks

---
 python/triqs/gf/block_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ac9e97b..9d0c271 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -152,8 +152,8 @@ class BlockGf:
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, BlockGf)
         for (i,g),(i2,g2) in zip(self,G2): 
-           if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): 
-               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)) 
+           if tuple(g.target_shape) != tuple(g2.target_shape):
+               raise RuntimeError("Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2))
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From d4c13398ec649a87c7b585fb27f767f07b973703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 36/80] fix: Block2Gf << initializer failed

---
 python/triqs/gf/block2_gf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 997ff85..992d34d 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -18,7 +18,7 @@
 #
 # Authors: Weh Andreas, Michel Ferrero, Alexander Hampel, Jonathan Karp, Igor Krivenko, Nils Wentzell
 
-from collections.abc import Sequence
+from collections.abc import Mapping, Sequence
 from itertools import chain, product
 
 import numpy as np
@@ -235,8 +235,10 @@ class Block2Gf:
           """
         if isinstance(A, self.__class__):
            for bn, g in self: g << A[bn]
+        elif isinstance(A, Mapping):
+           for bn, g in self: g << A[bn]
         else:
-           for bn, g in self:  self[bn] << A[bn]
+           for bn, g in self: g << A
         return self
 
     def __iadd__(self,arg):
-- 
2.43.0


From 795e0dd482e780453ac0014f2180264a1ef98548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 37/80] fix: unknown names of a Block2Gf raised ValueError
 instead of IndexError

---
 python/triqs/gf/block2_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 992d34d..1480747 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -215,14 +215,14 @@ class Block2Gf:
     def __getitem__(self,key):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except ValueError:
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: " + repr(list(product(self.__indices1,self.__indices2))))
         return g
 
     def __setitem__(self,key,val):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except ValueError:
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(list(product(self.__indices1,self.__indices2))))
         g << val
 
-- 
2.43.0


From 23aa6c96f6595c7ef254acedb564ff6ef591b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 38/80] fix: selected blocks of a Block2Gf did not keep the
 order of the original

---
 python/triqs/gf/block2_gf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 1480747..91efde9 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -104,13 +104,15 @@ class Block2Gf:
         """Returns a VIEW of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)
+        return self.__class__ ([bn for bn in self.__indices1 if bn in selected_blocks1], [bn for bn in self.__indices2 if bn in selected_blocks2],
+                               lambda bn1, bn2: self[bn1,bn2], make_copies=False)
 
     def copy_selected_blocks(self, selected_blocks1, selected_blocks2):
         """Returns a COPY of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=True)
+        return self.__class__ ([bn for bn in self.__indices1 if bn in selected_blocks1], [bn for bn in self.__indices2 if bn in selected_blocks2],
+                               lambda bn1, bn2: self[bn1,bn2], make_copies=True)
 
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
-- 
2.43.0


From 72264911f32231ab8fcb6f39bd99e89d579d12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 39/80] fix: Block2Gf could not be pickled

---
 python/triqs/gf/block2_gf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 91efde9..028efe5 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -23,6 +23,9 @@ from itertools import chain, product
 
 import numpy as np
 
+def call_factory_from_dict(cl, name, dic):
+    """Given a class cl and a dict dic, it calls cl.__factory_from_dict__(dic)"""
+    return cl.__factory_from_dict__(name, dic)
 
 class Block2Gf:
     """
@@ -184,7 +187,7 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return lambda cl,name,dic: cl.__factory_from_dict__(name, dic), (self.__class__,self.name, self.__reduce_to_dict__())
+        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From 50609b7608864627fc6b66a59b46f6d3fd5f1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 40/80] fix: the initialiser OneFermionInTime used undefined
 names

---
 python/triqs/gf/descriptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 61d5fc0..489d013 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -22,7 +22,7 @@
 r""" """
 
 from .descriptor_base import *
-from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq
+from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq, MeshImTime
 import warnings
                 
 #######################################
@@ -33,12 +33,12 @@ class OneFermionInTime(Base):
          
     def __call__(self,G):
         L = self.L
-        if G.mesh.TypeGF not in [GF_Type.Imaginary_Time]: 
-            raise TypeError("This initializer is only correct in frequency")
+        if type(G.mesh) is not MeshImTime:
+            raise TypeError("This initializer is only correct in imaginary time")
 
         Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0])
 
-        fact = -1/(1+exp(-L*G.beta))
+        fact = -1/(1+exp(-L*G.mesh.beta))
         Function(lambda t: fact* exp(-L*t) *Id)(G)
         return G
 
-- 
2.43.0


From 77fbe41ac8f7d3f238d3ae97e0fa6df2ba4e06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 41/80] fix: SemiCircular filled all elements on the real axis
 and had the wrong branch at zero bosonic frequency

---
 python/triqs/gf/descriptors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 489d013..5e9bb78 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -91,14 +91,14 @@ semicircle
         if type(G.mesh) in [MeshImFreq, MeshDLRImFreq]:
             def f(om_):
                 om = om_ + mu
-                return (om - 1j*copysign(1,om.imag)*sqrt(D*D - om**2))/D/D*2*Id
+                return (om - sqrt(om - D)*sqrt(om + D))/D/D*2*Id
         elif type(G.mesh) == MeshReFreq:
             def f(om_):
               om = om_.real + mu
               if (om > -D) and (om < D):
-                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))
+                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2)) * Id
               else:
-                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))
+                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
         else:
             raise TypeError("This initializer is only correct in frequency")
 
-- 
2.43.0


From 536132880a00eac8f67b782733bceba90ef3b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 42/80] fix: printing SemiCircular raised NameError

---
 python/triqs/gf/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 5e9bb78..20c9a9a 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -81,7 +81,7 @@ semicircle
 """
         Base.__init__(self, half_bandwidth=half_bandwidth, chem_potential=chem_potential)
 
-    def __str__(self): return "SemiCircular(%s, %s)"%self.half_bandwidth, chem_potential 
+    def __str__(self): return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential)
 
     def __call__(self,G):
         D = self.half_bandwidth
-- 
2.43.0


From f0006fc9537a31b1eec2b18b649f136220bcdda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 43/80] fix: discretize_bath failed for complex hoppings with a
 real start

---
 python/triqs/gf/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 2bef238..fe292f6 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -468,6 +468,11 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
     else:
         raise ValueError('V0 has invalid type {}, should be one of: None, float, complex, or np.ndarray'.format(type(V0)))
 
+    if np.iscomplexobj(V0) and not cmplx:
+        raise ValueError('V0 initialized with complex values, but cmplx=False')
+    if cmplx:
+        V0 = V0.astype(complex)
+
     # bath energies are initialized as linspace over the approximate bandwidth or given as list
     if (isinstance(eps0, list) or isinstance(eps0, np.ndarray)):
         assert len(eps0) == Nb, 'len(eps) does not match number of bath sides'
-- 
2.43.0


From d08ee392695372c722617859c76514771db8649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 44/80] fix: the Kanamori and density Hamiltonians added a
 one-body term for a nonzero diagonal of U

---
 python/triqs/operators/util/hamiltonians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index d273a39..3b799de 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -149,6 +149,8 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
     for s1, s2 in product(spin_names,spin_names):
         for a1, a2 in product(range(n_orb), range(n_orb)):
             if (s1==s2):
+                if (a1==a2):
+                    continue
                 U_val = U[a1,a2]
             else:
                 U_val = Uprime[a1,a2]
@@ -244,6 +246,8 @@ def h_int_density(spin_names,n_orb,U,Uprime,off_diag=None,map_operator_structure
     for s1, s2 in product(spin_names,spin_names):
         for a1, a2 in product(range(n_orb),range(n_orb)):
             if (s1==s2):
+                if (a1==a2):
+                    continue
                 U_val = U[a1,a2]
             else:
                 U_val = Uprime[a1,a2]
-- 
2.43.0


From 8ab4db78ee7e9c35c287d02405a60c6d3011e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 45/80] fix: the terms written to H_dump were not those of the
 Hamiltonian

---
 python/triqs/operators/util/hamiltonians.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index 3b799de..0e1de2f 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -91,8 +91,8 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write('%s'%(mkind(s2,a3),) + '\t')
-                H_dump_file.write('%s'%(mkind(s1,a4),) + '\t')
+                H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
+                H_dump_file.write('%s'%(mkind(s1,a3),) + '\t')
                 H_dump_file.write(str(U_val.real) + '\n')
 
     return H
@@ -196,7 +196,7 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write(str(-J_hund) + '\n')
+                H_dump_file.write(str(J_hund) + '\n')
 
     return H
 
-- 
2.43.0


From 33141c84308fddca1c611b347dd76c3fcc74f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 46/80] fix: clebsch_gordan had the wrong sign for many momenta

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 1c2f617..2933fa2 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -624,7 +624,7 @@ def clebsch_gordan(jm1, jm2, jm3):
               Clebsh-Gordan coefficient.
 
     """
-    norm = sqrt(2*jm3[0]+1)*(-1 if jm1[0]-jm2[0]+jm3[1] % 2 else 1)
+    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
     return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
 
 def subarray(a,idxlist,n=None) :
-- 
2.43.0


From c6d6263bf223f1854c4fd9bc50e0ee878ae11090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 47/80] fix: the cluster sites were not found for superlattice
 vectors with negative coordinates

---
 python/triqs/lattice/super_lattice.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 1b36e90..2804c3d 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -73,10 +73,8 @@ class TBSuperLattice(TBLattice):
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
             # the points inside it and store it.
-            if ndim==1:  a=(max(self._M[0,:]), 0, 0 )
-            elif ndim==2:  a=(2*max(self._M[0,:]), 2*max(self._M[1,:]), 0 )
-            elif ndim==3: a= (3*max(self._M[0,:]), 3*max(self._M[1,:]), 3*max(self._M[2,:]))
-            else: raise ValueError("ndim is not between 1 and 3 !!")
+            if not 1 <= ndim <= 3: raise ValueError("ndim is not between 1 and 3 !!")
+            a = [sum(abs(self._M[i,:])) if i < ndim else 0 for i in range(3)]
             r = lambda i:  list(range(-a[i] , a[i]+1))
             for nx in r(0):
                 for ny in r(1):
-- 
2.43.0


From 8f4e22186d6c6c58d9c6f5dc00de2e130234a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 48/80] fix: TBSuperLattice failed with
 remove_internal_hoppings

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 2804c3d..b49da4c 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -132,7 +132,7 @@ class TBSuperLattice(TBLattice):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
                 if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
-                if not(remove_internal) or R!= self.tb_lattice.ndim*(0, ):
+                if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
                             Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
-- 
2.43.0


From 90cb0aef8e06f748beef76bb89ed05e97a63b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 49/80] fix: change_coordinates_SL_to_L of TBSuperLattice
 raised TypeError

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index b49da4c..39a7d62 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -140,7 +140,7 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_SL_to_L(self, R , alpha):
         """Given a point in the supercell R, site (number) alpha, it computes its position on the tb_lattice in lattice coordinates"""
-        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha,:]
+        return numpy.dot (self._M, numpy.array(R)) + numpy.array(self.__cluster_sites[alpha])
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-- 
2.43.0


From 935b7d5507985758706b87ff7829d8ed5541d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 50/80] fix: TBSuperLattice rejected cluster sites given as
 tuples or as an array

---
 python/triqs/lattice/super_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 39a7d62..99141bb 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -67,8 +67,8 @@ class TBSuperLattice(TBLattice):
         self.Norb = tb_lattice.n_orbitals * Ncluster_sites
 
         # cluster_sites computation
-        if cluster_sites!=None:
-            self.__cluster_sites = list(cluster_sites)[:]
+        if cluster_sites is not None:
+            self.__cluster_sites = [list(CS) for CS in cluster_sites]
         else: # Computes the position of the cluster automatically
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
-- 
2.43.0


From 63298bd40bcabed4f09f2304c367468a01892601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 51/80] fix: TBSuperLattice could not be pickled or copied

---
 python/triqs/lattice/super_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 99141bb..1e32045 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -114,10 +114,8 @@ class TBSuperLattice(TBLattice):
         assert self.Norb == self.n_orbitals
 
 
-    __HDF_reduction__ = ['__BaseLattice', '__super_lattice_units', '__cluster_sites', '__remove_internal_hoppings']
-
     def __reduce__ (self):
-        return tuple([getattr(self, x) for x in self.__HDF_reduction__])
+        return self.__class__, (self.__BaseLattice, self.__super_lattice_units, self.__cluster_sites, self.__remove_internal_hoppings)
 
     def fold(self, D1, remove_internal=False, create_zero = None):
         """ Input: a function  r-> f(r) on the tb_lattice given as a dictionnary
-- 
2.43.0


From 6f7750fea2b736c7e1d19b0dd75922d060239df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 52/80] fix: the Wannier90 hoppings were transposed in the
 orbitals

---
 python/triqs/lattice/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/lattice/utils.py b/python/triqs/lattice/utils.py
index e040ef7..fab824a 100644
--- a/python/triqs/lattice/utils.py
+++ b/python/triqs/lattice/utils.py
@@ -112,7 +112,8 @@ def parse_hopping_from_wannier90_hr_dat(filename):
     dat = np.loadtxt(StringIO(dat))
     dat = dat.reshape(nrpts, num_wann, num_wann, 7)
     R = dat[:, 0, 0, 0:3].astype(int)
-    hopp = dat[..., 5] + 1.j * dat[..., 6]
+    # the first orbital index runs fastest in the file
+    hopp = (dat[..., 5] + 1.j * dat[..., 6]).transpose(0, 2, 1)
 
     # Account for degeneracy of the Wigner-Seitz points
     hopp /= deg[:, None, None]
-- 
2.43.0


From 84602fb9443944f084ae7ba668aeb2ab8675336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 53/80] fix: TB_from_pythTB failed for lattices of less than
 three dimensions

---
 python/triqs/lattice/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/utils.py b/python/triqs/lattice/utils.py
index fab824a..dc38dd8 100644
--- a/python/triqs/lattice/utils.py
+++ b/python/triqs/lattice/utils.py
@@ -237,7 +237,7 @@ def TB_from_pythTB(ptb):
     m_zero = np.zeros((ptb.get_num_orbitals(), ptb.get_num_orbitals()), dtype=complex)
 
     # fill on-site energies
-    hopp_dict[(0, 0, 0)] = np.eye(ptb.get_num_orbitals(), dtype=complex) * ptb._site_energies
+    hopp_dict[(0,) * len(ptb.get_lat())] = np.eye(ptb.get_num_orbitals(), dtype=complex) * ptb._site_energies
 
     # fill hoppings
     for hopp, orb_from, orb_to, displacement in ptb._hoppings:
-- 
2.43.0


From f2b121e2c8a4589201da9bd4a699246b9c28960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 54/80] fix: DOS.density was wrong below the band and on tables
 that are not equidistant

---
 python/triqs/dos/dos.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index 3570c17..1ed7263 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -97,11 +97,8 @@ name : string
         except:
             ind = self.eps.shape[0]
 
-        de = self.eps[1]-self.eps[0]
-        #for e,r in itertools.izip(self.eps[0:ind],self.rho[0:ind]):
-        #    dens += r
-        dens = (sum(self.rho[0:ind]) - self.rho[0]/2.0 - self.rho[ind-1]/2.0) * de
-        #dens2 = dens + (self.rho[ind-1]/2.0 + self.rho[ind]/2.0) * de
+        if ind == 0: return dens
+        dens = sum((self.eps[1:ind] - self.eps[0:ind-1]) * (self.rho[0:ind-1] + self.rho[1:ind])) / 2.0
         if (ind<self.eps.shape[0]): dens += (mu-self.eps[ind-1]) * (self.rho[ind-1] + self.rho[ind])/2.0
         return dens 
 
-- 
2.43.0


From 89e0ba8d3b8d54ee63bb821b2e77c38532689e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 55/80] fix: the Hilbert transform with a function for Sigma
 failed since Python 3.11

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 0ea741d..b1ddb3a 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -101,7 +101,7 @@ class HilbertTransform:
         # case 2) Sigma is a function returning a Gf
         else:
             assert callable(Sigma), "If Sigma is not a Gf it must be a function"
-            assert len(inspect.getargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
+            assert len(inspect.getfullargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
             model = Sigma(self.dos.eps[0])
             Sigma_fnt = True
 
-- 
2.43.0


From 90f668132f02b8ae386870b491a16ded91fd453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 56/80] fix: the Hilbert transform failed for fields that are
 arrays

---
 python/triqs/dos/hilbert_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index b1ddb3a..05f11ab 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -117,7 +117,7 @@ class HilbertTransform:
 
         if not(isinstance(self.dos, DOSFromFunction)):
             assert n_points_integral==None and test_convergence == None, " Those parameters can only be used with an dos_from_function"
-        if field !=None:
+        if field is not None:
             try:
                 result += field
             except:
@@ -138,7 +138,7 @@ class HilbertTransform:
             tmp << iOmega_n + mu + eta * 1j
             if not(Sigma_fnt):
                 tmp -= Sigma
-            if field != None: tmp -= field
+            if field is not None: tmp -= field
 
             # I slice all the arrays on the node. Cf reduce operation below.
             for d, e_h, e in zip(*[mpi.slice_array(A) for A in [self.rho_for_sum, eps_hat, self.dos.eps]]):
-- 
2.43.0


From a06fa7bce4285cbb03a8ce471c7bc9863717c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 57/80] fix: HilbertTransform could not be pickled

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 05f11ab..4fc3b8f 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -46,7 +46,7 @@ class HilbertTransform:
     #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__, (self.rho)
+        return self.__class__, (self.dos,)
 
     #-------------------------------------------------------------
 
-- 
2.43.0


From 0955a0c895df597551d21821ebac1405082326ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 58/80] fix: n_points_integral and test_convergence of the
 Hilbert transform never worked

---
 python/triqs/dos/hilbert_transform.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 4fc3b8f..b6ace79 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -168,21 +168,21 @@ class HilbertTransform:
             if not(n_points_integral): # if not defined, use the defaults given at construction of the dos
                 n_points_integral=  len(self.dos.eps)
             else:
-                self.dos._DOS__f(n_points_integral)
+                self.dos._DOSFromFunction__f(n_points_integral)
                 self.__normalize()
 
             HT(result)
 
-            nloop, test = 1, 0
-            while test_convergence and nloop < 10 and (nloop == 1 or test > test_convergence):
-                if nloop>1:
-                    self.dos._DOS__f(n_points_integral)
-                    self.__normalize()
+            nloop, converged = 1, False
+            while test_convergence and nloop < 10 and not converged:
+                n_points_integral *= 2
+                self.dos._DOSFromFunction__f(n_points_integral)
+                self.__normalize()
 
                 result_old = result.copy()
-                result = DOS.HilbertTransform(self, Sigma, mu, eta, epsilon_hat, result)
-                test = test_distance(result, result_old, test_convergence)
-                n_points_integral *=2
+                HT(result)
+                converged = test_distance(result, result_old, test_convergence)
+                nloop += 1
 
         else:  # Ordinary DOS
             HT(result)
-- 
2.43.0


From ca16a0796823ea7d173d12c0881f78ff7e999735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 59/80] fix: the k sum with a function for Sigma failed since
 Python 3.11

---
 python/triqs/sumk/sumk_discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index 62465f5..a20d036 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -115,7 +115,7 @@ class SumkDiscrete:
         # case 2) Sigma is a function returning a BlockGf
         else:
             assert callable(Sigma), "If Sigma is not a BlockGf it must be a function"
-            Sigma_Nargs = len(inspect.getargspec(Sigma)[0])
+            Sigma_Nargs = len(inspect.getfullargspec(Sigma)[0])
             assert Sigma_Nargs <= 2, "Sigma must be a function of k or of k and epsilon"
             if Sigma_Nargs == 1:
                 model = Sigma(self.bz_points[0])
-- 
2.43.0


From 56fb606e9b4012dc8a4d48a7100304210140a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 60/80] fix: Recompute_Grid failed for shifted grids

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 3741593..f279efe 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -111,13 +111,13 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             raise IndexError("Summation method unknown")
 
         # A shift
-        if Q:
+        if Q is not None:
             try:
                 Q = np.array(Q)
                 assert len(Q.shape) ==1
             except:
                 raise RuntimeError("Q is not of correct type")
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.bz_points[k_index,:] +=Q
 
         # Compute the discretized hoppings from the Superlattice
-- 
2.43.0


From 5d168ff230693ee589a57da0b0ef921c8298b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 61/80] fix: SumkDiscreteFromLattice failed on a patch of the
 Brillouin zone

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index f279efe..2657765 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -141,7 +141,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
 
         tritemp = np.array(patch._triangles)
-        ntri = len(tritemp)/3
+        ntri = len(tritemp)//3
         nk = n_bz*n_bz*ntri
         self.resize_arrays(nk)
 
@@ -172,6 +172,6 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
         if self.orthogonal_basis:
-            self.mu_pattern[:,:] =  self.SL.MuPattern[:,:]
+            self.mu_pattern[:,:] = np.identity(self.SL.n_orbitals)
         else:
             assert 0 , "not checked"
-- 
2.43.0


From e6f30dccbdbdca3be3b5ec1c282f2b95fab4531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 62/80] fix: copies of SumkDiscreteFromLattice had another grid

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 2657765..148b2ef 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -53,7 +53,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
      #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__,  (self.SL, self.patch, self.bz_weights.shape[0],self.method)
+        return self.__class__,  (self.SL, self.patch, self.__n_points, self.method)
 
      #-------------------------------------------------------------
 
@@ -67,6 +67,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
         assert method in ["Riemann","Gauss"], "method %s is not recognized"%method
         self.method = method
+        self.__n_points = n_points
         self.resize_arrays(n_points)
         if self.patch:
             self.__Compute_Grid_One_patch(self.patch, n_points , method, Q)
-- 
2.43.0


From c05622c859b9e5e047b9704fcd71bd7e15cec57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 63/80] fix: the comparison of arrays requires equal shapes and
 accepts empty arrays

---
 python/triqs/utility/comparison_tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/utility/comparison_tests.py b/python/triqs/utility/comparison_tests.py
index 54f46bb..09407fe 100644
--- a/python/triqs/utility/comparison_tests.py
+++ b/python/triqs/utility/comparison_tests.py
@@ -20,7 +20,8 @@
 import numpy as np
 
 def assert_arrays_are_close(a, b, precision = 1.e-6):
-    d = np.amax(np.abs(a - b))
+    assert np.shape(a) == np.shape(b), "Arrays have different shapes %s and %s"%(np.shape(a), np.shape(b))
+    d = np.amax(np.abs(a - b)) if np.size(a) else 0
     assert  d< precision, "Arrays are different. Difference is %s.\n %s \n\n --------- \n\n %s"%(d,a,b)
 
 def assert_array_close_to_scalar(a, x, precision = 1.e-6):
-- 
2.43.0


From 79898cca916a492dc3fb9a6e95be3ffa43813b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 64/80] fix: h5diff applies the requested precision to arrays
 and numbers

---
 python/triqs/utility/h5diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 6f451ae..76957e7 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -62,10 +62,10 @@ def compare(key, a, b, level, precision):
 
         # ... until here
         elif isinstance(a, numpy.ndarray):
-            assert_arrays_are_close(a,b)
+            assert_arrays_are_close(a,b,precision)
 
         elif t in [int, float, complex]:
-            assert abs(a-b) < 1.e-10, " a-b = %"%(a-b)
+            assert abs(a-b) < precision, " a-b = %s"%(a-b)
 
         elif t in [bool, numpy.bool_]:
            assert a==b
-- 
2.43.0


From 366629d3caff3d777b9ee6db6d1cc42862a796e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 65/80] fix: h5diff reports missing keys instead of failing
 with a KeyError

---
 python/triqs/utility/h5diff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 76957e7..8084b77 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -37,10 +37,11 @@ def compare(key, a, b, level, precision):
         assert t == type(b), "%s have different types"%key
 
         if t == dict or isinstance(a, HDFArchiveGroup) :
-            if list(a.keys()) != list(b.keys()):
+            if set(a.keys()) != set(b.keys()):
                 failures.append("Two archive groups '%s' with different keys \n %s \n vs\n %s"%(key,list(a.keys()), list(b.keys())))
             for k in a.keys():
-                compare(key + '/'+ k, a[k], b[k], level + 1, precision)
+                if k in b.keys():
+                    compare(key + '/'+ k, a[k], b[k], level + 1, precision)
 
         # The TRIQS object which are comparable starts here ....
         #elif t in [GfImFreq, GfImTime, GfReFreq, GfReTime, GfLegendre, GfImFreq_x_ImFreqTv3] :
-- 
2.43.0


From f36f8003c86390172c7a20032db98b591fc36c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 66/80] fix: h5diff forgets the differences found by an earlier
 call

---
 python/triqs/utility/h5diff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 8084b77..cb42a2d 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -88,6 +88,7 @@ def compare(key, a, b, level, precision):
         failures.append("Comparison of key '%s'  has failed:\n """%key + mess)
 
 def h5diff(f1, f2, precision= 1.e-6):
+    failures.clear()
     compare('', HDFArchive(f1,'r'), HDFArchive(f2,'r'), 0, precision)
     if failures :
         print ('-'*50, file=sys.stderr )
-- 
2.43.0


From 25e3ca3fcf85aad93fee65ad8f1bfb308e8d0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 67/80] fix: plot sequences of pairs with complex ordinates

---
 python/triqs/plot/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/plot/protocol.py b/python/triqs/plot/protocol.py
index 311af15..b63ceb3 100644
--- a/python/triqs/plot/protocol.py
+++ b/python/triqs/plot/protocol.py
@@ -70,7 +70,7 @@ def plot_protocol_apply(ob, opt_dict, xlims):
         Y = numpy.array([ob(x) for x in X])
     else:
         try: # generator x,y
-            X, Y = zip(*ob)
+            X, Y = (numpy.array(a) for a in zip(*ob))
         except:
             raise RuntimeError("Object cannot be plotted")
 
-- 
2.43.0


From 7a9cce1c9a049fbb97b374d273e4d430ab91c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 68/80] fix: clip_array accepts generators

---
 python/triqs/plot/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/plot/protocol.py b/python/triqs/plot/protocol.py
index b63ceb3..02dd38e 100644
--- a/python/triqs/plot/protocol.py
+++ b/python/triqs/plot/protocol.py
@@ -35,6 +35,7 @@ def clip_array(x_array, x_min, x_max):
         * x_array[sl] is in [x_min, x_max]
     """
     assert x_max >= x_min, "Windowing error"
+    x_array = list(x_array)
 
     try:
         low = next((i for i, x in enumerate(x_array) if not(x < x_min)))
-- 
2.43.0


From 2bec8baeb74862db3a40890fc61d949fa3525a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 69/80] fix: x_data_view clips functions of any target rank

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index bcebb95..b56925d 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -780,7 +780,7 @@ class Gf(metaclass=AddMethod):
         if x_window:
             # the slice due to clip option x_window
             sl = clip_array(X, *x_window) if x_window else slice(len(X))
-            X, data = X[sl],  data[sl, :, :]
+            X, data = X[sl],  data[sl]
         if flatten_y and data.shape[1:3] == (1, 1):
             data = data[:, 0, 0]
         return X, data
-- 
2.43.0


From 8b6a872f10e1b61a0aac21267123a63cf90f5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 70/80] fix: a matrix times a BlockGf or Block2Gf multiplied
 the blocks from the right

---
 python/triqs/gf/block2_gf.py | 5 ++++-
 python/triqs/gf/block_gf.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 028efe5..390ba85 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -306,7 +306,10 @@ class Block2Gf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        c = self.copy()
+        for bn, g in c: g << x * g
+        return c
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 9d0c271..acf8f9a 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -358,7 +358,10 @@ class BlockGf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        c = self.copy()
+        for i,g in c: g << x * g
+        return c
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From da291093396a810d5c6df27ad9a75db2e3f2be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 71/80] fix: expressions of block Green functions with
 different numbers of blocks read out of bounds

---
 c++/triqs/gfs/block/expr.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 2a2acf9..7d2a3fb 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -76,7 +76,16 @@ namespace triqs {
 
       L l;
       R r;
-      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {}
+      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {
+        if constexpr (not std::is_void_v<typename L_t::mesh_t> and not std::is_void_v<typename R_t::mesh_t>) {
+          bool same_size = true;
+          if constexpr (arity == 1)
+            same_size = (l.size() == r.size());
+          else
+            same_size = (l.size1() == r.size1() and l.size2() == r.size2());
+          if (not same_size) TRIQS_RUNTIME_ERROR << "Block Green Function Expression: the operands have different numbers of blocks";
+        }
+      }
 
       auto size() const { return std::max(l.size(), r.size()); }
       auto size1() const { return std::max(l.size1(), r.size1()); }
-- 
2.43.0


From 359a1b06e1b9617c35f7535d2e91c858bd0ac4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 72/80] fix: the negative of a block Green function could not
 be combined, nor assigned for two indices

---
 c++/triqs/gfs/block/expr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 7d2a3fb..8b8deba 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -116,10 +116,14 @@ namespace triqs {
       using mesh_t   = typename L_t::mesh_t;
       using target_t = typename L_t::target_t;
 
+      static constexpr int arity = arity_of<L_t>;
+
       L l;
       template <typename LL> bgf_unary_m_expr(LL &&l_) : l(std::forward<LL>(l_)) {}
 
       auto size() const { return l.size(); }
+      auto size1() const { return l.size1(); }
+      auto size2() const { return l.size2(); }
       auto block_names() const { return l.block_names(); }
 
       template <typename... Keys> auto operator[](Keys &&...keys) const { return -l.operator[](std::forward<Keys>(keys)...); } // Clang fix
-- 
2.43.0


From 048fb6fb14c96fe9c5795b1a8bf6437e6dd0ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 73/80] fix: assigning a view of blocks of another number of
 blocks wrote or read out of bounds

---
 c++/triqs/gfs/block/block_gf_view.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index efaa3c3..1b30426 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -96,11 +96,25 @@ namespace triqs::gfs {
 
     /// ---------------  Operator = --------------------
 
+    private:
+    // Assign after checking that the view and rhs have the same number of blocks
+    template <typename RHS> void _assign_checked(RHS const &rhs) {
+      if constexpr (Arity == 1) {
+        if (!(size() == rhs.size())) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
+      } else {
+        if (!(size1() == rhs.size1() and size2() == rhs.size2()))
+          TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size1() << " x " << size2() << " vs " << rhs.size1() << " x "
+                              << rhs.size2();
+      }
+      _assign_impl(rhs);
+    }
+
+    public:
     /// Copy the data, without resizing the view.
     block_gf_view &operator=(block_gf_view const &rhs)
       requires(not IsConst)
     {
-      _assign_impl(rhs);
+      _assign_checked(rhs);
       return *this;
     }
 
@@ -112,8 +126,7 @@ namespace triqs::gfs {
       requires(not IsConst)
     {
       if constexpr (not nda::is_scalar_v<RHS>) {
-        if (!(size() == rhs.size())) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
-        _assign_impl(rhs);
+        _assign_checked(rhs);
       } else {
         if constexpr (Arity == 1) {
           for (auto &y : _glist) y = rhs;
-- 
2.43.0


From ad3727cde1a82815cc681614ec1d770889016eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 74/80] fix: restricted_view ignored the statistic and the
 option of the mesh

---
 c++/triqs/gfs/functions/imfreq.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index a1d93f2..37329f5 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -246,9 +246,10 @@ namespace triqs::gfs {
   // ------------------------------------------------------------------------------------------------------
 
   template <template <typename, typename, typename...> typename G, typename T> auto restricted_view(G<mesh::imfreq, T> const &g, int n_max) {
-    auto iw_mesh = mesh::imfreq{g.mesh().beta(), Fermion, n_max};
-
     auto const &old_mesh = g.mesh();
+    auto option          = old_mesh.positive_only() ? mesh::imfreq::option::positive_frequencies_only : mesh::imfreq::option::all_frequencies;
+    auto iw_mesh         = mesh::imfreq{old_mesh.beta(), old_mesh.statistic(), n_max, option};
+
     int idx_min          = old_mesh.to_data_index(iw_mesh.first_index());
     int idx_max          = old_mesh.to_data_index(iw_mesh.last_index());
     auto data_view       = g.data()(range(idx_min, idx_max + 1), ellipsis());
-- 
2.43.0


From 5d47e7ce0dcb115aea6016c71663ac51505ccdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 75/80] fix: replace_by_tail left the lowest negative frequency
 of bosonic functions unchanged

---
 c++/triqs/gfs/functions/imfreq.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index 37329f5..1ff146c 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -258,8 +258,10 @@ namespace triqs::gfs {
   }
 
   template <typename T> void replace_by_tail(gf_view<mesh::imfreq, T> g, array_const_view<dcomplex, 1 + T::rank> tail, int n_min) {
+    // the negative counterpart of the index n is -n-1 for fermions and -n for bosons
+    long n_neg = -n_min - (g.mesh().statistic() == Fermion ? 1 : 0);
     for (auto iw : g.mesh())
-      if (iw.n >= n_min or iw.n < -n_min) g[iw] = tail_eval(tail, iw);
+      if (iw.n >= n_min or iw.n <= n_neg) g[iw] = tail_eval(tail, iw);
   }
 
   template <typename T> void replace_by_tail_in_fit_window(gf_view<mesh::imfreq, T> g, array_const_view<dcomplex, 1 + T::rank> tail) {
-- 
2.43.0


From 66f80442adbfb423c47fdae222a6a0e40f016c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:07 +0000
Subject: [PATCH 76/80] fix: get_tail of Legendre Green functions had another
 signature in the header and a wrong zeroth moment

---
 c++/triqs/gfs/functions/legendre.cpp | 2 +-
 c++/triqs/gfs/functions/legendre.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/functions/legendre.cpp b/c++/triqs/gfs/functions/legendre.cpp
index c68f31c..4265e3b 100644
--- a/c++/triqs/gfs/functions/legendre.cpp
+++ b/c++/triqs/gfs/functions/legendre.cpp
@@ -38,7 +38,7 @@ namespace triqs {
       array<dcomplex, 3> t{sh};
       t() = 0.0;
 
-      for (int p = 0; p < order; p++)
+      for (int p = 1; p < order; p++) // the 0th moment vanishes
         for (auto l : gl.mesh()) t(p, ellipsis{}) += (triqs::utility::legendre_t(l.index(), p) / std::pow(gl.mesh().beta(), p)) * gl[l];
 
       return t;
diff --git a/c++/triqs/gfs/functions/legendre.hpp b/c++/triqs/gfs/functions/legendre.hpp
index 439cf37..23a1c69 100644
--- a/c++/triqs/gfs/functions/legendre.hpp
+++ b/c++/triqs/gfs/functions/legendre.hpp
@@ -26,7 +26,7 @@ namespace triqs {
     // For Legendre functions
     // ------------------------------------------------------
 
-    array<dcomplex, 3> get_tail(gf_const_view<mesh::legendre> gl);
+    array<dcomplex, 3> get_tail(gf_const_view<mesh::legendre> gl, int order);
 
     void enforce_discontinuity(gf_view<mesh::legendre> &gl, nda::array_view<double, 2> disc);
   } // namespace gfs
-- 
2.43.0


From 3d3104009205b100d70a63b3572c68dbfebc0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:07 +0000
Subject: [PATCH 77/80] fix: the density of real frequencies exchanged the
 weights of the partial interval at zero

---
 c++/triqs/gfs/functions/density.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 70f1a43..60b33b8 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -150,7 +150,7 @@ namespace triqs::gfs {
     for (auto widx : range(1, N0)) res += g[widx];
     if (abs(dw0) > 1e-9) {
       double a = dw0 / dw;
-      res += 0.5 * ((a * a - 1.) * g[N0 - 1] + a * (2. - a) * g[N0]);
+      res += 0.5 * ((a * (2. - a) - 1.) * g[N0 - 1] + a * a * g[N0]);
     } else
       res -= 0.5 * g[N0 - 1];
 
-- 
2.43.0


From f40c4669cea74451cf97d721646700dab4d3224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:07 +0000
Subject: [PATCH 78/80] fix: the density of real frequencies below zero read
 out of bounds

---
 c++/triqs/gfs/functions/density.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 60b33b8..9db3ec5 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -134,13 +134,13 @@ namespace triqs::gfs {
   /// Zero temperature density from integration on the real frequency axis
   nda::matrix<dcomplex> density(gf_const_view<refreq> g) {
 
-    auto N      = g.mesh().size();
+    int N       = g.mesh().size();
     double wmin = g.mesh().w_min();
     double dw   = g.mesh().delta();
 
     EXPECTS(wmin < 0.);
 
-    auto N0    = int(std::floor(-wmin / dw)) + 1; // frequency index at or above w=0
+    int N0     = std::min(int(std::floor(-wmin / dw)) + 1, N); // frequency index at or above w=0, N if the mesh ends before
     double dw0 = -wmin - (N0 - 1) * dw;           // last interval width to w=0
 
     nda::matrix<dcomplex> res(g.target_shape());
@@ -148,7 +148,7 @@ namespace triqs::gfs {
     // Trapetzoidal integration, with partial right interval
     res = 0.5 * g[0];
     for (auto widx : range(1, N0)) res += g[widx];
-    if (abs(dw0) > 1e-9) {
+    if (N0 < N and abs(dw0) > 1e-9) {
       double a = dw0 / dw;
       res += 0.5 * ((a * (2. - a) - 1.) * g[N0 - 1] + a * a * g[N0]);
     } else
-- 
2.43.0


From 50c42ee1ff7b4149bafd76c60a44a7c6b3c1a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:38 +0000
Subject: [PATCH 79/80] fix: the index of the subspace of the vacuum was not
 initialised when the vacuum is excluded

---
 c++/triqs/atom_diag/atom_diag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/atom_diag/atom_diag.hpp b/c++/triqs/atom_diag/atom_diag.hpp
index 8820a07..afe1b42 100644
--- a/c++/triqs/atom_diag/atom_diag.hpp
+++ b/c++/triqs/atom_diag/atom_diag.hpp
@@ -322,7 +322,7 @@ namespace triqs {
       std::vector<std::vector<matrix_t>> cdag_matrices;  // cdag_matrices[operator_linear_index][B] = matrix from subspace B to subspace B'
       std::vector<std::vector<matrix_t>> c_matrices;     // idem for annihilation operators
       double gs_energy;                                  // Energy of the ground state
-      long vacuum_subspace_index;                        // Invariant subspace containing |0>
+      long vacuum_subspace_index = -1;                   // Invariant subspace containing |0> (-1 if it is excluded)
       full_hilbert_space_state_t vacuum;                 // Vacuum vector (in the eigenbasis)
 
       std::vector<std::vector<quantum_number_t>> quantum_numbers; // Values of the quantum numbers for each subspace
-- 
2.43.0


From 85996880ea74e0d186936c1a76ad53de5ac7ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:38 +0000
Subject: [PATCH 80/80] fix: quantum_number_eigenvalues_checked accepted
 operators whose matrix is not diagonal but imaginary

---
 c++/triqs/atom_diag/impl/functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/functions.cpp b/c++/triqs/atom_diag/impl/functions.cpp
index 482d93f..3310aa7 100644
--- a/c++/triqs/atom_diag/impl/functions.cpp
+++ b/c++/triqs/atom_diag/impl/functions.cpp
@@ -154,7 +154,7 @@ namespace triqs {
       if (!commutator.is_almost_zero()) TRIQS_RUNTIME_ERROR << "The operator is not a quantum number";
 
       auto d = atom.get_full_hilbert_space_dim();
-      matrix<quantum_number_t> M(d, d);
+      ATOM_DIAG_T::matrix_t M(d, d);
       M() = 0;
       std::vector<std::vector<quantum_number_t>> result;
 
@@ -163,7 +163,7 @@ namespace triqs {
         for (auto const &x : op) {
           auto b_m = atom.get_matrix_element_of_monomial(x.monomial, sp);
           if (b_m.first == -1) continue;
-          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += real(x.coef * b_m.second);
+          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += x.coef * b_m.second;
         }
       }
       if (!is_diagonal(M)) TRIQS_RUNTIME_ERROR << "The matrix of the operator is not diagonal !!!";
@@ -171,7 +171,7 @@ namespace triqs {
       for (int sp = 0; sp < atom.n_subspaces(); ++sp) {
         auto dim = atom.get_subspace_dim(sp);
         result.push_back(std::vector<quantum_number_t>(dim, 0));
-        for (int i = 0; i < dim; ++i) result.back()[i] = M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i));
+        for (int i = 0; i < dim; ++i) result.back()[i] = std::real(M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i)));
       }
 
       return result;
-- 
2.43.0

