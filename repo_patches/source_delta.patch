From ef6fac6ca869b2374479eb187dcc1dc1c4801f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 01/56] fix: 1-RDM without 2-RDM no longer picks up double
 excitations

---
 include/macis/util/rdms.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..c038df3 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -108,14 +108,16 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
 
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
-  const auto trdm_ptr = trdm.data_handle();
-  if(ex_alpha_count == 4 and trdm_ptr)
+  // Double excitations only contribute to the 2-RDM
+  if((ex_alpha_count + ex_beta_count) == 4 and not trdm.data_handle()) return;
+
+  if(ex_alpha_count == 4)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-  else if(ex_beta_count == 4 and trdm_ptr)
+  else if(ex_beta_count == 4)
     rdm_contributions_4(bra_beta, ket_beta, ex_beta, val, trdm);
 
-  else if(ex_alpha_count == 2 and ex_beta_count == 2 and trdm_ptr)
+  else if(ex_alpha_count == 2 and ex_beta_count == 2)
     rdm_contributions_22(bra_alpha, ket_alpha, ex_alpha, bra_beta, ket_beta,
                          ex_beta, val, trdm);
 
-- 
2.43.0


From 061d57fb3ff608e52ba38104b04d8dc33dc2d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 02/56] fix: generate_constraint_singles empties its output
 when there are no excitations

---
 include/macis/asci/mask_constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index c9907e0..6c32ddf 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -132,12 +132,12 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
 template <size_t N>
 void generate_constraint_singles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
                                  wfn_t<N> B, std::vector<wfn_t<N>>& t_singles) {
+  t_singles.clear();
   auto [o, v] = generate_constraint_single_excitations(det, T, O_mask, B);
   const auto oc = o.count();
   const auto vc = v.count();
   if(!oc or !vc) return;
 
-  t_singles.clear();
   t_singles.reserve(oc * vc);
   const auto occ = bits_to_indices(o);
   const auto vir = bits_to_indices(v);
-- 
2.43.0


From cc58ea60be6a04469eec7db06f3a31d15652b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 03/56] fix: work-partition constraints never fix more
 electrons than the strings contain

Strings with fewer than three alpha electrons satisfied no constraint, and
refining a constraint that already fixes every electron lost the string it
stood for, so parallel ASCI searches missed determinants.
---
 include/macis/asci/mask_constraints.hpp | 57 ++++++++++++++++---------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index 6c32ddf..e786d9a 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -83,8 +83,6 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
   // Occ/Vir pairs to generate excitations
   std::vector<wfn_t<N>> O, V;
 
-  if((det & C) == 0) return std::make_tuple(O, V);
-
   auto o = det ^ C;
   auto v = (~det) & O_mask & B;
 
@@ -178,8 +176,6 @@ void generate_constraint_doubles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
 template <size_t N>
 unsigned count_constraint_doubles(wfn_t<N> det, wfn_t<N> C, wfn_t<N> O,
                                   wfn_t<N> B) {
-  if((det & C) == 0) return 0;
-
   auto o = det ^ C;
   auto v = (~det) & O & B;
 
@@ -232,7 +228,7 @@ size_t constraint_histogram(wfn_t<N> det, size_t n_os_singles,
   ndet += ns;                 // AA
   ndet += nd;                 // AAAA
   ndet += ns * n_os_singles;  // AABB
-  auto T_min = ffs(T) - 1;
+  auto T_min = T.any() ? ffs(T) - 1 : N;
   if(satisfies_constraint(det, T, T_min)) {
     ndet += n_os_singles + n_os_doubles + 1;  // BB + BBBB + No Excitations
   }
@@ -496,23 +492,42 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
   // Global workloads
   std::vector<size_t> workloads(world_size, 0);
 
-  // Generate triplets + heuristic
+  // A constraint cannot fix more electrons than the strings contain
+  const size_t n_elec = unique_alpha.size() ? unique_alpha.front().count() : 0;
+  const size_t n_fixed = std::min(size_t(3), n_elec);
+
+  // Generate triplets (or smaller for fewer electrons)
+  std::vector<wfn_constraint<N>> base_constraints(1);
+  base_constraints[0].C = 0;
+  base_constraints[0].B = O;
+  base_constraints[0].C_min = norb;
+  for(size_t i = 0; i < n_fixed; ++i) {
+    std::vector<wfn_constraint<N>> next;
+    for(const auto& c : base_constraints)
+      for(unsigned q = 0; q < c.C_min; ++q) {
+        wfn_constraint<N> c_next = c;
+        c_next.C.flip(q);
+        c_next.B >>= (c.C_min - q);
+        c_next.C_min = q;
+        next.emplace_back(c_next);
+      }
+    base_constraints = std::move(next);
+  }
+
+  // Heuristic
   std::vector<std::pair<wfn_constraint<N>, size_t>> constraint_sizes;
-  constraint_sizes.reserve(norb * norb * norb);
+  constraint_sizes.reserve(base_constraints.size());
   size_t total_work = 0;
-  for(int t_i = 0; t_i < norb; ++t_i)
-    for(int t_j = 0; t_j < t_i; ++t_j)
-      for(int t_k = 0; t_k < t_j; ++t_k) {
-        auto constraint = make_triplet<N>(t_i, t_j, t_k);
-        const auto& [T, B, _] = constraint;
+  for(const auto& constraint : base_constraints) {
+    const auto& [T, B, _] = constraint;
 
-        size_t nw = 0;
-        for(const auto& alpha : unique_alpha) {
-          nw += constraint_histogram(alpha, ns_othr, nd_othr, T, O, B);
-        }
-        if(nw) constraint_sizes.emplace_back(constraint, nw);
-        total_work += nw;
-      }
+    size_t nw = 0;
+    for(const auto& alpha : unique_alpha) {
+      nw += constraint_histogram(alpha, ns_othr, nd_othr, T, O, B);
+    }
+    if(nw) constraint_sizes.emplace_back(constraint, nw);
+    total_work += nw;
+  }
 
   size_t local_average = (0.6 * total_work) / world_size;
 
@@ -522,7 +537,9 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
     {
       auto it = std::partition(
           constraint_sizes.begin(), constraint_sizes.end(),
-          [=](const auto& a) { return a.second <= local_average; });
+          [=](const auto& a) {
+            return a.second <= local_average or a.first.C.count() >= n_elec;
+          });
 
       // Remove constraints from full list
       tps_to_next = decltype(tps_to_next)(it, constraint_sizes.end());
-- 
2.43.0


From b2cde0ca6eec252d36a05c2b2d69c1fac8c7f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 04/56] fix: parallel ASCI search keeps everything when fewer
 candidates than requested exist

Distributed selection was asked for a rank outside of the candidate list
(more than there are, or zero) and read beyond the gathered scores.
---
 include/macis/asci/determinant_search.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 7d66813..8e98e0d 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -571,10 +571,16 @@ std::vector<wfn_t<N>> asci_search(
       std::transform(asci_pairs.begin(), asci_pairs.end(), scores.begin(),
                      [](const auto& p) { return std::abs(p.rv); });
 
-      // Determine kth-ranked scores
-      auto kth_score =
-          dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
-                           std::greater<double>{}, std::equal_to<double>{});
+      // Determine kth-ranked scores, selection requires 0 < k < N: otherwise
+      // either everything or nothing is kept
+      const size_t n_scores = allreduce(scores.size(), MPI_SUM, comm);
+      double kth_score = 0.0;
+      if(top_k_elements == 0)
+        kth_score = std::numeric_limits<double>::infinity();
+      else if(n_scores > top_k_elements)
+        kth_score =
+            dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
+                             std::greater<double>{}, std::equal_to<double>{});
 
       // Partition local pairs into less / eq batches
       auto [g_begin, e_begin, l_begin, _end] = leg_partition(
-- 
2.43.0


From 96f2b0e1b94a3a9b2265f104e2a01ac613c21626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 05/56] fix: parallel ASCI search drops only tied determinants
 at the cut-off

The gathered list was truncated in rank order, which could erase a strictly
better determinant of a later process in favour of a tied one.
---
 include/macis/asci/determinant_search.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 8e98e0d..ed34e7a 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -591,16 +591,23 @@ std::vector<wfn_t<N>> asci_search(
       // Determine local counts
       size_t n_greater = std::distance(g_begin, e_begin);
       size_t n_equal = std::distance(e_begin, l_begin);
-      size_t n_less = std::distance(l_begin, _end);
+
+      // Edge case where NGEQ > TOPK - erase (only) equivalent elements
+      std::vector<int> local_sizes, displ;
+      const size_t n_greater_global = allreduce(n_greater, MPI_SUM, comm);
+      total_gather_and_exclusive_scan(int(n_equal), local_sizes, displ, comm);
+      const size_t n_equal_before = displ[world_rank];
+      const size_t n_equal_max = top_k_elements - n_greater_global;
+      n_equal = std::min(
+          n_equal, n_equal_max - std::min(n_equal_max, n_equal_before));
       const int n_geq_local = n_greater + n_equal;
 
       // Strip bitsrings
       std::vector<wfn_t<N>> keep_strings_local(n_geq_local);
-      std::transform(g_begin, l_begin, keep_strings_local.begin(),
+      std::transform(g_begin, g_begin + n_geq_local, keep_strings_local.begin(),
                      [](const auto& p) { return p.state; });
 
       // Gather global strings
-      std::vector<int> local_sizes, displ;
       auto n_geq_global = total_gather_and_exclusive_scan(
           n_geq_local, local_sizes, displ, comm);
 
@@ -610,12 +617,6 @@ std::vector<wfn_t<N>> asci_search(
                      keep_strings_global.data(), local_sizes.data(),
                      displ.data(), string_dtype, comm);
 
-      // Edge case where NGEQ > TOPK - erase equivalent elements
-      if(n_geq_global > top_k_elements) {
-        n_geq_global = top_k_elements;
-        keep_strings_global.resize(n_geq_global);
-      }
-
       // Make fake strings
       topk.resize(n_geq_global);
       std::transform(keep_strings_global.begin(), keep_strings_global.end(),
-- 
2.43.0


From ea35b5a710f83bb62f3a2053a7216b8ccf6ac216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 06/56] fix: parallel ASCI search honours just_singles

---
 include/macis/asci/determinant_search.hpp | 61 ++++++++++++-----------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index ed34e7a..77e520b 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -295,32 +295,34 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
             h_el_tol, h_diag, E_ASCI, ham_gen, asci_pairs);
       }
 
-      // AAAA excitations
-      for(const auto& bcd : uad[i_alpha].bcd) {
-        const auto& beta = bcd.beta_string;
-        const auto& coeff = bcd.coeff;
-        const auto& h_diag = bcd.h_diag;
-        const auto& occ_beta = bcd.occ_beta;
-        const auto& orb_ens_alpha = bcd.orb_ens_alpha;
-        generate_constraint_doubles_contributions_ss(
-            coeff, det, C, O, B, beta, occ_alpha, occ_beta,
-            orb_ens_alpha.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
-            ham_gen, asci_pairs);
-      }
+      if(not asci_settings.just_singles) {
+        // AAAA excitations
+        for(const auto& bcd : uad[i_alpha].bcd) {
+          const auto& beta = bcd.beta_string;
+          const auto& coeff = bcd.coeff;
+          const auto& h_diag = bcd.h_diag;
+          const auto& occ_beta = bcd.occ_beta;
+          const auto& orb_ens_alpha = bcd.orb_ens_alpha;
+          generate_constraint_doubles_contributions_ss(
+              coeff, det, C, O, B, beta, occ_alpha, occ_beta,
+              orb_ens_alpha.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
+              ham_gen, asci_pairs);
+        }
 
-      // AABB excitations
-      for(const auto& bcd : uad[i_alpha].bcd) {
-        const auto& beta = bcd.beta_string;
-        const auto& coeff = bcd.coeff;
-        const auto& h_diag = bcd.h_diag;
-        const auto& occ_beta = bcd.occ_beta;
-        const auto& vir_beta = bcd.vir_beta;
-        const auto& orb_ens_alpha = bcd.orb_ens_alpha;
-        const auto& orb_ens_beta = bcd.orb_ens_beta;
-        generate_constraint_doubles_contributions_os(
-            coeff, det, C, O, B, beta, occ_alpha, occ_beta, vir_beta,
-            orb_ens_alpha.data(), orb_ens_beta.data(), V_pqrs, norb, h_el_tol,
-            h_diag, E_ASCI, ham_gen, asci_pairs);
+        // AABB excitations
+        for(const auto& bcd : uad[i_alpha].bcd) {
+          const auto& beta = bcd.beta_string;
+          const auto& coeff = bcd.coeff;
+          const auto& h_diag = bcd.h_diag;
+          const auto& occ_beta = bcd.occ_beta;
+          const auto& vir_beta = bcd.vir_beta;
+          const auto& orb_ens_alpha = bcd.orb_ens_alpha;
+          const auto& orb_ens_beta = bcd.orb_ens_beta;
+          generate_constraint_doubles_contributions_os(
+              coeff, det, C, O, B, beta, occ_alpha, occ_beta, vir_beta,
+              orb_ens_alpha.data(), orb_ens_beta.data(), V_pqrs, norb, h_el_tol,
+              h_diag, E_ASCI, ham_gen, asci_pairs);
+        }
       }
 
       // If the alpha determinant satisfies the constraint,
@@ -343,10 +345,11 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
               h_diag, E_ASCI, ham_gen, asci_pairs);
 
           // BBBB Excitations
-          append_ss_doubles_asci_contributions<N / 2, N / 2>(
-              coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
-              eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI, ham_gen,
-              asci_pairs);
+          if(not asci_settings.just_singles)
+            append_ss_doubles_asci_contributions<N / 2, N / 2>(
+                coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
+                eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
+                ham_gen, asci_pairs);
 
         }  // Beta Loop
       }    // Triplet Check
-- 
2.43.0


From 45f69a2360367c5f7a6b1353add0b9b82dc73fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 07/56] fix: parallel ASCI search screens matrix elements as
 the serial search does

---
 include/macis/asci/mask_constraints.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index e786d9a..7d18b74 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -267,7 +267,7 @@ void generate_constraint_singles_contributions_ss(
       for(auto p : occ_othr) h_el += V_ov[p];
 
       // Early Exit
-      if(std::abs(coeff * h_el) < h_el_tol) continue;
+      if(std::abs(h_el) < h_el_tol) continue;
 
       // Calculate Excited Determinant
       auto ex_det = det | os_det;
@@ -314,7 +314,7 @@ void generate_constraint_doubles_contributions_ss(
       const auto G_aibj = G_ij[b + a * LDG2];
 
       // Early Exit
-      if(std::abs(coeff * G_aibj) < h_el_tol) continue;
+      if(std::abs(G_aibj) < h_el_tol) continue;
 
       // Calculate Excited Determinant (spin)
       const auto full_ex_spin = ij | ab;
@@ -372,7 +372,7 @@ void generate_constraint_doubles_contributions_os(
           const auto V_aibj = V_ai[jb * LDV2];
 
           // Early Exist
-          if(std::abs(coeff * V_aibj) < h_el_tol) continue;
+          if(std::abs(V_aibj) < h_el_tol) continue;
 
           // double sign_othr = single_excitation_sign( os_det >> (N/2),  b, j
           // );
-- 
2.43.0


From fe1695f61851483c1a8b31174b08a3c92c5d38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 08/56] fix: parallel Davidson guess is placed on the process
 that owns the smallest diagonal element

---
 include/macis/solvers/davidson.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..f63491b 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -100,10 +100,10 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   // Zero out guess
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
-  // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
-  if(world_rank == owner_rank) {
-    X[min_idx - A.local_row_start()] = 1.;
+  // Set guess on the rank which owns the min index
+  if(min_idx >= row_starts[world_rank] and
+     min_idx < row_starts[world_rank + 1]) {
+    X[min_idx - row_starts[world_rank]] = 1.;
   }
 }
 #endif
-- 
2.43.0


From 3a6fce59f2122f1c51accb3fb59cafdfb5d8ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 09/56] fix: Davidson accepts a guess that already is an
 eigenvector

---
 include/macis/solvers/davidson.hpp | 36 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index f63491b..554dff1 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -152,13 +152,20 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
   // Compute Initial A*V
   op.operator_action(1, 1., V.data(), N, 0., AV.data(), N);
 
-  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
+  // Check whether the guess already is an eigenvector
+  LAM[0] = blas::dot(N, V.data(), 1, AV.data(), 1);
   std::copy_n(AV.data(), N, V.data() + N);
-  gram_schmidt(N, 1, V.data(), N, V.data() + N);
+  blas::axpy(N, -LAM[0], V.data(), 1, V.data() + N, 1);
+  bool converged = blas::nrm2(N, V.data() + N, 1) < tol;
+
+  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
+  if(!converged) {
+    std::copy_n(AV.data(), N, V.data() + N);
+    gram_schmidt(N, 1, V.data(), N, V.data() + N);
+  }
 
-  bool converged = false;
   size_t iter = 1;
-  for(int64_t i = 1; i < max_m; ++i, ++iter) {
+  for(int64_t i = 1; i < max_m and !converged; ++i, ++iter) {
     const auto k = i + 1;  // Current subspace dimension after new vector
 
     // AV(:,i) = A * V(:,i)
@@ -315,14 +322,25 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
   op.operator_action(1, 1., V_local.data(), N_local, 0., AV_local.data(),
                      N_local);
 
-  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
+  // Check whether the guess already is an eigenvector
+  double guess_dot =
+      blas::dot(N_local, V_local.data(), 1, AV_local.data(), 1);
+  LAM[0] = allreduce(guess_dot, MPI_SUM, comm);
   std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
-  p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data() + N_local,
-                 comm);
+  blas::axpy(N_local, -LAM[0], V_local.data(), 1, V_local.data() + N_local, 1);
+  guess_dot = blas::dot(N_local, V_local.data() + N_local, 1,
+                        V_local.data() + N_local, 1);
+  bool converged = std::sqrt(allreduce(guess_dot, MPI_SUM, comm)) < tol;
+
+  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
+  if(!converged) {
+    std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
+    p_gram_schmidt(N_local, 1, V_local.data(), N_local,
+                   V_local.data() + N_local, comm);
+  }
 
-  bool converged = false;
   int64_t iter = 1;
-  for(int64_t i = 1; i < max_m; ++i, ++iter) {
+  for(int64_t i = 1; i < max_m and !converged; ++i, ++iter) {
     const auto k = i + 1;  // Current subspace dimension after new vector
 
     // AV(:,i) = A * V(:,i)
-- 
2.43.0


From 0646b4969d8df08f02701d6a6d5007ad120ed1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 10/56] fix: all processes agree on whether the passed CI
 vector is used as the Davidson guess

---
 include/macis/solvers/selected_ci_diag.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..ecd3354 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -38,12 +38,12 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
   // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  // All processes must agree on whether the passed vector is used
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.m())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From 4ddc89a3a8d5daa99c503455657a66fe0593c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 11/56] fix: CASCI density matrices use the whole CI vector
 when it is distributed

---
 include/macis/util/cas.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/macis/util/cas.hpp b/include/macis/util/cas.hpp
index 63c8f4a..82d1fce 100644
--- a/include/macis/util/cas.hpp
+++ b/include/macis/util/cas.hpp
@@ -10,6 +10,8 @@
 #include <macis/solvers/selected_ci_diag.hpp>
 #include <macis/types.hpp>
 #include <macis/util/mcscf.hpp>
+#include <macis/util/mpi.hpp>
+#include <numeric>
 
 namespace macis {
 
@@ -55,9 +57,26 @@ double compute_casci_rdms(
                        settings.ci_max_subspace, settings.ci_res_tol, C,
                        MACIS_MPI_CODE(comm, ) true);
 
+  // The CI vector is distributed: gather it for the RDMs
+  double* C_full = C.data();
+#ifdef MACIS_ENABLE_MPI
+  std::vector<double> C_gathered;
+  const int world_size = comm_size(comm);
+  if(world_size > 1) {
+    std::vector<int> counts(world_size), displs(world_size, 0);
+    const int local_count = C.size();
+    MPI_Allgather(&local_count, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
+    std::partial_sum(counts.begin(), counts.end() - 1, displs.begin() + 1);
+    C_gathered.resize(dets.size());
+    MPI_Allgatherv(C.data(), local_count, MPI_DOUBLE, C_gathered.data(),
+                   counts.data(), displs.data(), MPI_DOUBLE, comm);
+    C_full = C_gathered.data();
+  }
+#endif
+
   // Compute RDMs
   ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(),
-                    C.data(), matrix_span<double>(ORDM, no, no),
+                    C_full, matrix_span<double>(ORDM, no, no),
                     rank4_span<double>(TRDM, no, no, no, no));
 
   return E0;
-- 
2.43.0


From 8a38cbd14a9cd1612e10e7caa327a4c7261aaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 12/56] fix: serial Davidson guess does not keep stale entries
 of the passed vector

---
 include/macis/solvers/davidson.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 554dff1..8c3854c 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -64,6 +64,7 @@ void diagonal_guess(size_t N, const SpMatType& A, double* X) {
   auto D = extract_diagonal_elements(A);
   auto D_min = std::min_element(D.begin(), D.end());
   auto min_idx = std::distance(D.begin(), D_min);
+  std::fill_n(X, N, 0.);
   X[min_idx] = 1.;
 }
 
-- 
2.43.0


From c7bb0a65d61db2708f9e1ce73e17ef70c9016ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 13/56] fix: ASCI growth that asks for no more determinants
 fails instead of looping forever

---
 include/macis/asci/grow.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index f3f4260..8d2a471 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -52,6 +52,8 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
         std::min(std::max(asci_settings.ntdets_min,
                           wfn.size() * asci_settings.grow_factor),
                  asci_settings.ntdets_max);
+    if(ndets_new <= wfn.size())
+      throw std::runtime_error("Wavefunction cannot grow...");
     double E;
     auto ai_st = hrt_t::now();
     std::tie(E, wfn, X) = asci_iter<N, index_t>(
-- 
2.43.0


From b59d32b69beafec1e937756cd3b93e8255cde622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 14/56] fix: ASCI growth with rotations returns the energy of
 the returned coefficients

---
 include/macis/asci/grow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index 8d2a471..a714e78 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -126,7 +126,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
       logger->trace("  * Rediagonalizing");
       auto rdg_st = hrt_t::now();
       std::vector<double> X_local;
-      selected_ci_diag(
+      E = selected_ci_diag(
           wfn.begin(), wfn.end(), ham_gen, mcscf_settings.ci_matel_tol,
           mcscf_settings.ci_max_subspace, mcscf_settings.ci_res_tol,
           X_local MACIS_MPI_CODE(, comm));
-- 
2.43.0


From f9861d91f2a0fc09d9fc50ce07cfbc2e37dec529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 15/56] fix: sparse matrix type constraints take part in
 overload resolution

---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0


From 5197df375206c7b8c45b6d7099a1bd3c87b95854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 16/56] fix: COO to CSR/CSC conversion handles empty
 rows/columns and rectangular matrices

---
 .../include/sparsexx/matrix_types/conversions.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..2c7ba7d 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -78,11 +78,11 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
   rowptr_.at(0) = other.indexing();
   auto cur_row = 0;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
+    while(rowind_coo[i] != (cur_row + indexing_)) {
       cur_row++;
       rowptr_.at(cur_row) = i + indexing_;
     }
-  rowptr_.at(m_) = nnz_ + indexing_;
+  while(cur_row < m_) rowptr_.at(++cur_row) = nnz_ + indexing_;
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
@@ -105,11 +105,11 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
   colptr_.at(0) = other.indexing();
   auto cur_col = 0;
   for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
+    while(colind_coo[i] != (cur_col + indexing_)) {
       cur_col++;
       colptr_.at(cur_col) = i + indexing_;
     }
-  colptr_.at(m_) = nnz_ + indexing_;
+  while(cur_col < n_) colptr_.at(++cur_col) = nnz_ + indexing_;
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From 8ae49e0005794e73f8b312643922a500c3312bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 17/56] fix: COO to dense conversion honours the index base

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From f9ba75bc74c6c31392067803f13849d02ae3bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 18/56] fix: COO sparse product honours the index base

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From dbb8d95a3831d1790bb58f8d183e489500c8ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 19/56] fix: triangle expansion counts the missing diagonal
 entries and leaves rectangles alone

---
 .../include/sparsexx/matrix_types/coo_matrix_ops.hpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..11445c7 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -108,10 +108,11 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   std::cout << std::boolalpha;
   std::cout << "LT " << lower_triangle << std::endl;
   std::cout << "UT " << upper_triangle << std::endl;
-  if(diagonal or full_matrix) return;
+  if(diagonal or full_matrix or m_ != n_) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t new_nnz = nnz_;
+  for(size_t i = 0; i < nnz_; ++i) new_nnz += (rowind_[i] != colind_[i]);
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From 075e8af99e772451fbf0fe27b23134f235c1f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 20/56] fix: write_mm writes row and column indices in the same
 base by default

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index c29e7a2..30bf831 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -72,7 +72,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   write_mm_header(file, m, n, nnz, symm);
 
   int col_offset = 0;
-  int row_offset = 0;
+  int row_offset = A.indexing();
   if(forced_index >= 0) {
     col_offset = forced_index - A.indexing();
     row_offset = forced_index;
-- 
2.43.0


From 74271acae774f823d69c88391462d333fafdbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 21/56] fix: distributed sparse matrices with 64-bit indices
 can be built from a replicated matrix

---
 .../sparsexx/matrix_types/dist_sparse_matrix.hpp     | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..6caae32 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -93,10 +93,8 @@ class dist_sparse_matrix {
   dist_sparse_matrix(MPI_Comm c, const SpMatType& A)
       : dist_sparse_matrix(c, A.m(), A.n()) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
-    auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
-    auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+    std::pair<int64_t, int64_t> local_lo(local_row_st, local_row_st);
+    std::pair<int64_t, int64_t> local_up(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
@@ -109,10 +107,8 @@ class dist_sparse_matrix {
                      const std::vector<extent_type>& row_tiles)
       : dist_sparse_matrix(c, A.m(), A.n(), row_tiles) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
-    auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
-    auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+    std::pair<int64_t, int64_t> local_lo(local_row_st, local_row_st);
+    std::pair<int64_t, int64_t> local_up(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
-- 
2.43.0


From fb03172f7bdd4b1869c965f2ea553f4dd20216a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 22/56] fix: copies of distributed sparse matrices keep their
 row partition

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index 6caae32..09916f0 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -84,7 +84,8 @@ class dist_sparse_matrix {
   }
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
-      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_,
+                           other.dist_row_extents_) {
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 5bd9410f2c07dd83bf1565077c15c06279e0de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 23/56] fix: write_fcidump replaces the file, completes it
 before returning and can be called again

---
 src/macis/fcidump.cxx | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bf1d776..85bb635 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -6,8 +6,7 @@
  * See LICENSE.txt for details
  */
 
-#include <spdlog/sinks/basic_file_sink.h>
-#include <spdlog/spdlog.h>
+#include <spdlog/fmt/fmt.h>
 
 #include <fstream>
 #include <iomanip>
@@ -183,27 +182,31 @@ void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
                    const double* V, size_t LDV, double E_core) {
-  auto logger = spdlog::basic_logger_mt("fcidump", fname);
-  logger->set_pattern("%v");
-  const std::string fmt_string = "{:8} {:8} {:8} {:8} {:25.16e}";
+  std::ofstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
+  auto write_line = [&](size_t p, size_t q, size_t r, size_t s,
+                        double integral) {
+    file << fmt::format("{:8} {:8} {:8} {:8} {:25.16e}\n", p, q, r, s,
+                        integral);
+  };
 
   // Write two body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
         for(size_t l = 0; l < norb; ++l) {
-          logger->info(fmt_string, i + 1, j + 1, k + 1, l + 1,
-                       V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
+          write_line(i + 1, j + 1, k + 1, l + 1,
+                     V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
         }
 
   // Write one body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j) {
-      logger->info(fmt_string, i + 1, j + 1, 0, 0, T[i + j * LDT]);
+      write_line(i + 1, j + 1, 0, 0, T[i + j * LDT]);
     }
 
   // Write core
-  logger->info(fmt_string, 0, 0, 0, 0, E_core);
+  write_line(0, 0, 0, 0, E_core);
 }
 
 void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
-- 
2.43.0


From 4d6cfd8078c50a32931852c16d799fd514eb10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 24/56] fix: FCIDUMP orbital-energy lines are not taken for
 one-body integrals

---
 src/macis/fcidump.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 85bb635..7663ab8 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -61,13 +61,15 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   return std::make_tuple(p, q, r, s, integral);
 }
 
-enum LineClassification { Core, OneBody, TwoBody };
+enum LineClassification { Core, OrbitalEnergy, OneBody, TwoBody };
 
 LineClassification line_classification(int p, int q, int r, int s) {
   if(!(p or q or r or s))
     return LineClassification::Core;
   else if(p and q and r and s)
     return LineClassification::TwoBody;
+  else if(p and not(q or r or s))
+    return LineClassification::OrbitalEnergy;
   else
     return LineClassification::OneBody;
 }
-- 
2.43.0


From a6df12d40c0ff7a711db5c4e5d434db7203ec852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 25/56] fix: read_rdms_binary refuses incomplete files

---
 src/macis/fcidump.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 7663ab8..bac6536 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -247,6 +247,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   // Read 2RDM
   in_file.read((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+  if(!in_file) throw std::runtime_error(fname + " is incomplete");
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
-- 
2.43.0


From 048d8304cf4c314ee51c1c94a0d5a106d9b4153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 26/56] fix: FCIDUMP readers into raw memory honour the leading
 dimension

---
 src/macis/fcidump.cxx | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bac6536..5368d70 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -108,7 +108,8 @@ double read_fcidump_core(std::string fname) {
   return 0.0;
 }
 
-void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
+template <typename Span>
+void read_fcidump_1body_impl(std::string fname, Span T) {
   if(T.extent(0) != T.extent(1)) throw std::runtime_error("T must be square");
 
   auto norb = read_fcidump_norb(fname);
@@ -132,14 +133,20 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
   }
 }
 
+void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
+  read_fcidump_1body_impl(fname, T);
+}
+
 void read_fcidump_1body(std::string fname, double* T, size_t LDT) {
   auto norb = read_fcidump_norb(fname);
   col_major_span<double, 2> T_map(T, LDT, norb);
-  read_fcidump_1body(fname, KokkosEx::submdspan(T_map, std::pair{0, norb},
-                                                Kokkos::full_extent));
+  read_fcidump_1body_impl(fname,
+                          KokkosEx::submdspan(T_map, std::pair{0, norb},
+                                              Kokkos::full_extent));
 }
 
-void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
+template <typename Span>
+void read_fcidump_2body_impl(std::string fname, Span V) {
   if(V.extent(0) != V.extent(1)) throw std::runtime_error("V must be square");
   if(V.extent(0) != V.extent(2)) throw std::runtime_error("V must be square");
   if(V.extent(0) != V.extent(3)) throw std::runtime_error("V must be square");
@@ -174,11 +181,15 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
   }
 }
 
+void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
+  read_fcidump_2body_impl(fname, V);
+}
+
 void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
   auto norb = read_fcidump_norb(fname);
   col_major_span<double, 4> V_map(V, LDV, LDV, LDV, norb);
   auto sl = std::pair{0, norb};
-  read_fcidump_2body(
+  read_fcidump_2body_impl(
       fname, KokkosEx::submdspan(V_map, sl, sl, sl, Kokkos::full_extent));
 }
 
-- 
2.43.0


From dce389a7fe4f1425f3de74e7f1850b1d4ac823e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 27/56] fix: four_index_transform honours the leading
 dimensions of its tensors

---
 src/macis/transform.cxx | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..e156938 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -62,10 +62,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 1st Quarter
   // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
-  // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
+  // TMP1_kl(p,j)  = C(i,p) * X_kl(i,j)
+  for(size_t l = 0; l < norb_old; ++l)
+    for(size_t k = 0; k < norb_old; ++k) {
+      auto X_kl = X + (k + l * LDX) * LDX * LDX;
+      auto TMP1_kl = tmp1.data() + (k + l * norb_old) * norb_old * norb_new;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                 norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                 TMP1_kl, norb_new);
+    }
 
   // 2nd Quarter
   // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
@@ -91,10 +96,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
-  // Y(pqr,s) = V(pqr,l) * C(l,s)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+  // Y_qr(p,s)  = TMP1_qr(p,l) * C(l,s)
+  for(size_t r = 0; r < norb_new; ++r)
+    for(size_t q = 0; q < norb_new; ++q) {
+      auto TMP1_qr = tmp1.data() + (q + r * norb_new) * norb_new;
+      auto Y_qr = Y + (q + r * LDY) * LDY;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 norb_new, norb_new, norb_old, 1.0, TMP1_qr, norb_new3, C, LDC,
+                 0.0, Y_qr, LDY * LDY * LDY);
+    }
 
 #else
 
-- 
2.43.0


From e94bc206c14abe66a3566bc1c2d1eb2ace55257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 28/56] fix: generalized_fock_matrix sets the virtual rows to
 zero as documented

---
 src/macis/fock_matrices.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/macis/fock_matrices.cxx b/src/macis/fock_matrices.cxx
index a2708f1..a6bccb8 100644
--- a/src/macis/fock_matrices.cxx
+++ b/src/macis/fock_matrices.cxx
@@ -176,6 +176,12 @@ void generalized_fock_matrix(NumOrbital _norb, NumInactive _ninact,
       const size_t v_off = v + ninact;
       F[v_off + p * LDF] = X[p + v * norb] + Q[v + p * LDQ];
     }
+
+  // Virtual - General
+  for(size_t a = ninact + nact; a < norb; ++a)
+    for(size_t p = 0; p < norb; ++p) {
+      F[a + p * LDF] = 0.;
+    }
 }
 
 void generalized_fock_matrix_comp_mat1(NumOrbital _norb, NumInactive _ninact,
-- 
2.43.0


From 3cb352d12958b28060ba69247780a3fbf43d5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 29/56] fix: one_index_transformed_hamiltonian uses the leading
 dimension of T for T

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index fcddd40..de2d6be 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -77,7 +77,7 @@ void one_index_transformed_hamiltonian(NumOrbital norb, const double* T,
       double tmp = 0.0;
       for(size_t o = 0; o < no; ++o) {
         tmp +=
-            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDX];
+            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDT];
       }
       Tx[p + q * LDTx] = tmp;
     }
-- 
2.43.0


From dfffb91c5ec82e015e17184d5f16478e0b56a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 30/56] fix: orb_orb_hessian_contract is the symmetric second
 derivative of the energy

---
 src/macis/orbital_hessian.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index de2d6be..25108f2 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -150,8 +150,9 @@ void orb_orb_hessian_contract(NumOrbital norb, NumInactive ninact,
   std::vector<double> tmp_hk(orb_rot_sz);
   matrix_to_linear_orb_rot(ninact, nact, nvirt, Tk.data(), no, tmp_hk.data());
 
-  // Add to final result
-  for(size_t i = 0; i < orb_rot_sz; ++i) HK_lin[i] += tmp_hk[i];
+  // Add to final result: the second derivative is symmetric in both rotations,
+  // hence half of the commutator
+  for(size_t i = 0; i < orb_rot_sz; ++i) HK_lin[i] += 0.5 * tmp_hk[i];
 }
 
 }  // namespace macis
-- 
2.43.0


From ce42d5fc74ac74597238860c6b5dd0e8f0427ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 31/56] fix: numerical_orbital_hessian covers every pair of
 rotations

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 918bfba..36e1292 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -182,7 +182,7 @@ void numerical_orbital_hessian(NumOrbital _norb, NumInactive ninact,
   for(size_t i = 0; i < norb; ++i)
     for(size_t a = i + 1; a < norb; ++a)
       for(size_t j = 0; j < norb; ++j)
-        for(size_t b = i + 1; b < norb; ++b) {
+        for(size_t b = j + 1; b < norb; ++b) {
           std::fill(Kx.begin(), Kx.end(), 0);
           std::fill(Ky.begin(), Ky.end(), 0);
           Kx[a + i * norb] = dk;
-- 
2.43.0


From 0a1a251f852b8c23ed4ca09d9823eae168c297f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 32/56] fix: mcscf_impl honours the leading dimensions of the
 active RDMs

---
 include/macis/util/mcscf_impl.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/macis/util/mcscf_impl.hpp b/include/macis/util/mcscf_impl.hpp
index 48d1f85..51b27de 100644
--- a/include/macis/util/mcscf_impl.hpp
+++ b/include/macis/util/mcscf_impl.hpp
@@ -28,6 +28,31 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
                   double E_core, double* T, size_t LDT, double* V, size_t LDV,
                   double* A1RDM, size_t LDD1, double* A2RDM,
                   size_t LDD2 MACIS_MPI_CODE(, MPI_Comm comm)) {
+  // The active RDMs are handled in contiguous storage (the RDM functor does not
+  // take leading dimensions): pack and unpack when that is not what was passed.
+  if(LDD1 != nact.get() or LDD2 != nact.get()) {
+    const size_t n = nact.get();
+    std::vector<double> A1(n * n), A2(n * n * n * n);
+    for(size_t j = 0; j < n; ++j)
+      std::copy_n(A1RDM + j * LDD1, n, A1.data() + j * n);
+    for(size_t l = 0; l < n; ++l)
+      for(size_t k = 0; k < n; ++k)
+        for(size_t j = 0; j < n; ++j)
+          std::copy_n(A2RDM + (j + (k + l * LDD2) * LDD2) * LDD2, n,
+                      A2.data() + (j + (k + l * n) * n) * n);
+    const double E = mcscf_impl(rdm_op, settings, nalpha, nbeta, norb, ninact,
+                                nact, nvirt, E_core, T, LDT, V, LDV, A1.data(),
+                                n, A2.data(), n MACIS_MPI_CODE(, comm));
+    for(size_t j = 0; j < n; ++j)
+      std::copy_n(A1.data() + j * n, n, A1RDM + j * LDD1);
+    for(size_t l = 0; l < n; ++l)
+      for(size_t k = 0; k < n; ++k)
+        for(size_t j = 0; j < n; ++j)
+          std::copy_n(A2.data() + (j + (k + l * n) * n) * n, n,
+                      A2RDM + (j + (k + l * LDD2) * LDD2) * LDD2);
+    return E;
+  }
+
   /******************************************************************
    *  Top of MCSCF Routine - Setup and print header info to logger  *
    ******************************************************************/
-- 
2.43.0


From 7ac5867f71293ce6ac288851d44356d096656461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 33/56] fix: precond_cg_orbital_step does not divide by a
 vanishing diagonal Hessian

---
 src/macis/orbital_steps.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macis/orbital_steps.cxx b/src/macis/orbital_steps.cxx
index 95fd4f4..9c0eef2 100644
--- a/src/macis/orbital_steps.cxx
+++ b/src/macis/orbital_steps.cxx
@@ -9,6 +9,8 @@
 #include <macis/util/orbital_hessian.hpp>
 #include <macis/util/orbital_steps.hpp>
 
+#include <cmath>
+
 namespace macis {
 
 void precond_cg_orbital_step(NumOrbital norb, NumInactive ninact,
@@ -25,8 +27,10 @@ void precond_cg_orbital_step(NumOrbital norb, NumInactive ninact,
                       LDF, DH.data());
 
   // Precondition the gradient
+  // A vanishing diagonal (e.g. rotations between orbitals which are both empty
+  // or both doubly occupied) must not be divided by
   for(size_t p = 0; p < orb_rot_sz; ++p) {
-    K_lin[p] = -OG[p] / DH[p];
+    K_lin[p] = std::abs(DH[p]) > 1e-10 ? -OG[p] / DH[p] : -OG[p];
   }
 }
 
-- 
2.43.0


From 6878486e446debe4a94a9a976d6818a4e9a157b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 34/56] fix: lobpcg keeps the trial space orthonormal when the
 residuals are nearly dependent

---
 src/lobpcgxx/include/lobpcgxx/driver.hpp | 33 ++++++++++++++----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/lobpcgxx/include/lobpcgxx/driver.hpp b/src/lobpcgxx/include/lobpcgxx/driver.hpp
index acd2583..8ebc489 100644
--- a/src/lobpcgxx/include/lobpcgxx/driver.hpp
+++ b/src/lobpcgxx/include/lobpcgxx/driver.hpp
@@ -175,20 +175,25 @@ void lobpcg(const lobpcg_settings& settings, int64_t N, int64_t K, int64_t NR,
     // Apply preconditioner if it exists, else make a copy
     op_functor.apply_preconditioner(N, K, V, LDV, W, N);
 
-    // Project [X P] from W: W <- W - XP*(XP'*X)
-    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
-               dim_XP, K, N, T(1.), X, N, W, N, T(0.), WORKSPACE, dim_XP);
-    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N,
-               K, dim_XP, T(-1.), X, N, WORKSPACE, dim_XP, T(1.), W, N);
-
-    // Project [X P] from W (again): W <- W - XP*(XP'*X)
-    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
-               dim_XP, K, N, T(1.), X, N, W, N, T(0.), WORKSPACE, dim_XP);
-    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N,
-               K, dim_XP, T(-1.), X, N, WORKSPACE, dim_XP, T(1.), W, N);
-
-    // Orthogonalize W via CholQR
-    cholqr(N, K, W, N);
+    // Orthogonalize W against [X P] and then internally via CholQR. CholQR
+    // amplifies what is left of [X P] in W when the residuals are nearly
+    // linearly dependent, so the whole sequence is applied twice
+    for(int pass = 0; pass < 2; ++pass) {
+      // Project [X P] from W: W <- W - XP*(XP'*X)
+      blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
+                 dim_XP, K, N, T(1.), X, N, W, N, T(0.), WORKSPACE, dim_XP);
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 N, K, dim_XP, T(-1.), X, N, WORKSPACE, dim_XP, T(1.), W, N);
+
+      // Project [X P] from W (again): W <- W - XP*(XP'*X)
+      blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
+                 dim_XP, K, N, T(1.), X, N, W, N, T(0.), WORKSPACE, dim_XP);
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 N, K, dim_XP, T(-1.), X, N, WORKSPACE, dim_XP, T(1.), W, N);
+
+      // Orthogonalize W via CholQR
+      cholqr(N, K, W, N);
+    }
 
     if((iter + 1) % 20 == 0)
       op_functor.apply_matrix(N, dim_S, S, N, AS,
-- 
2.43.0


From 3f2df6a3b4c2c6a94e938f299159fd6147c87608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 35/56] fix: lobpcg refuses a trial space larger than the
 problem

---
 src/lobpcgxx/include/lobpcgxx/driver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lobpcgxx/include/lobpcgxx/driver.hpp b/src/lobpcgxx/include/lobpcgxx/driver.hpp
index 8ebc489..9b5eb9e 100644
--- a/src/lobpcgxx/include/lobpcgxx/driver.hpp
+++ b/src/lobpcgxx/include/lobpcgxx/driver.hpp
@@ -167,6 +167,9 @@ void lobpcg(const lobpcg_settings& settings, int64_t N, int64_t K, int64_t NR,
     const int64_t dim_XP = (!!iter + 1) * K;
     const int64_t dim_S = dim_XP + K;
 
+    // [X P W] must be linearly independent
+    if(dim_S > N) throw std::runtime_error("LOBPCG TRIAL SPACE EXCEEDS N");
+
     // Reverse residuals (for some reason...)
     for(auto i = 0; i < K / 2; ++i) {
       blas::swap(N, V + i * LDV, 1, V + (K - 1 - i) * LDV, 1);
-- 
2.43.0


From d8f551c18fc949027ef068d79a6b814597e62a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 36/56] fix: mp2_1rdm uses the leading dimension of V in its
 energy check

---
 src/macis/moller_plesset.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 5e00d85..ffcec54 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -68,8 +68,8 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
         for(auto b = 0ul; b < nvir; ++b) {
           const auto a_off = a + nocc;
           const auto b_off = b + nocc;
-          const double V_abij = V[a_off + i * norb + b_off * LDV2 + j * LDV3];
-          const double V_abji = V[a_off + j * norb + b_off * LDV2 + i * LDV3];
+          const double V_abij = V[a_off + i * LDV + b_off * LDV2 + j * LDV3];
+          const double V_abji = V[a_off + j * LDV + b_off * LDV2 + i * LDV3];
 
           const double t2_ijab = T2[i + j * nocc + a * nocc2 + b * nocc2v];
           EMP2 += t2_ijab * (2 * V_abij - V_abji);
-- 
2.43.0


From fb1383fd23512b87a73c5b84f681ad58b739f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 37/56] fix: mp2_1rdm writes the whole density matrix

---
 src/macis/moller_plesset.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index ffcec54..c6ad55d 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -77,6 +77,10 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
 
   std::cout << "EMP2 = " << EMP2 << std::endl;
 
+  // The OV/VO blocks vanish
+  for(auto q = 0ul; q < norb; ++q)
+    for(auto p = 0ul; p < norb; ++p) ORDM[p + q * LDD] = 0.0;
+
   // P(MP2) OO-block
   // D(i,j) -= T2(i,k,a,b) * (2*T2(j,k,a,b) - T2(j,k,b,a))
   for(auto i = 0ul; i < nocc; ++i)
-- 
2.43.0


From 6077cb06de693d078092e3153b723121eeda51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 38/56] fix: legacy determinants use 64-bit masks for all 64
 spin orbitals

The sign mask, the combination builder and the first-set-bit search worked on
int, so states with occupied bits beyond position 30 got wrong signs, lost
orbitals or the wrong flipped orbital.
---
 attic/inc/cmz_ed/slaterdet.h++ | 6 +++---
 attic/src/cmz_ed/combins.c++   | 2 +-
 attic/src/cmz_ed/slaterdet.c++ | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/attic/inc/cmz_ed/slaterdet.h++ b/attic/inc/cmz_ed/slaterdet.h++
index d496ff9..4116282 100644
--- a/attic/inc/cmz_ed/slaterdet.h++
+++ b/attic/inc/cmz_ed/slaterdet.h++
@@ -220,7 +220,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndx( const slater_det &st ) const 
         {
-          return (ffs( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -237,7 +237,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxUp( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -254,7 +254,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxDo( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Defines order among Slater determinants, for use in std::set. 
diff --git a/attic/src/cmz_ed/combins.c++ b/attic/src/cmz_ed/combins.c++
index 06e0dbf..adb7fa3 100644
--- a/attic/src/cmz_ed/combins.c++
+++ b/attic/src/cmz_ed/combins.c++
@@ -18,7 +18,7 @@ namespace cmz
        uint64_t temp = 0;
        for (int i = 0; i < Nbits; ++i) {
          if (v[i]) {
-             temp = temp + (1 << i);
+             temp = temp + (uint64_t(1) << i);
          }
        }
      //End: From vvector bool to uint
diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 7b35d4f..b2af89b 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -10,7 +10,7 @@ namespace cmz
       uint64_t omax = std::max(i,a);
       uint64_t omin = std::min(i,a);
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((1ULL<<omax) - 1) ^ ((1ULL<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i); Flip(a);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
@@ -21,7 +21,7 @@ namespace cmz
       uint64_t omax = std::max(i,a) + Norbs;
       uint64_t omin = std::min(i,a) + Norbs;
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((1ULL<<omax) - 1) ^ ((1ULL<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i+Norbs); Flip(a+Norbs);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
-- 
2.43.0


From 7dc1c85ff3474b21d45e1e7fb5270b46901c77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 39/56] fix: legacy density matrices include spin-down double
 excitations

The branch tested exc_do == 4 && exc_do == 0 and was never taken.
---
 attic/src/cmz_ed/rdms.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index e4e3149..c4c1bec 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -46,7 +46,7 @@ namespace cmz
             rdm2[ indexer(v2,v1,o1,o2) ] -= sign * contrib * 0.5;
           }
           // Double Do-Do
-          else if( exc_do == 4 && exc_do == 0 )
+          else if( exc_up == 0 && exc_do == 4 )
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-- 
2.43.0


From 68021f960bb301c281e7feff97b5486510746001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 40/56] fix: legacy pair loop keeps only states at most a
 double excitation apart

The condition parsed as a ^ (b <= 4) and skipped popcount, so every pair of
states was kept.
---
 attic/src/cmz_ed/hamil.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/hamil.c++ b/attic/src/cmz_ed/hamil.c++
index 162b03e..2a7b7ee 100644
--- a/attic/src/cmz_ed/hamil.c++
+++ b/attic/src/cmz_ed/hamil.c++
@@ -151,7 +151,7 @@ namespace cmz
       for( size_t i = 0; i < ndets; ++i ) {
       //std::cout << i << std::endl;
       for( size_t j = 0; j < i;     ++j ) 
-      if( stts_vec[i].GetState() ^ stts_vec[j].GetState() <= 4 ) {
+      if( std::popcount( stts_vec[i].GetState() ^ stts_vec[j].GetState() ) <= 4 ) {
         pairs.push_back( {i,j} );
         pairs.push_back( {j,i} );
       }
-- 
2.43.0


From 7a2b8e7f390acb5cf4356f12bd4d225a9966beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 41/56] fix: legacy density matrices find the second electron
 of same-spin doubles

The bra was excited back along with the ket, so the next differing orbitals
were those of the first excitation again.
---
 attic/src/cmz_ed/rdms.c++ | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index c4c1bec..594f6d6 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -35,8 +35,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcUp( o1, v1 );
-            sign = ket.SingleExcUp( v1, o1 );
+            double sign = ket.SingleExcUp( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcUp( v2, o2 );
@@ -50,8 +49,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcDo( o1, v1 );
-            sign = ket.SingleExcDo( v1, o1 );
+            double sign = ket.SingleExcDo( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcDo( v2, o2 );
-- 
2.43.0


From dc4ae7485424a17a73020345c3cfbd4a36422756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 42/56] fix: legacy Hamiltonian-driven excitations keep all
 coupled determinants

Doubles were screened with the integral indices in physicists' order passed to
the chemists' accessor, and singles with the one-body term alone, so GetHpairs
lost non-vanishing matrix elements.
---
 attic/src/cmz_ed/slaterdet.c++ | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index b2af89b..9ea4fa1 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -214,17 +214,16 @@ namespace cmz
       double thres = 1.E-9; //Threshold to keep excitation.
 
       double sign = 1.; // For function calling purposes
-      // Build single excitation.
+      // Build single excitation. These are not screened, since they also
+      // couple through the two-body integrals.
       // Single - Up
       for( auto ou : occs_up )
         for( auto vu : virts_up )
-          if( std::abs(pint->get(vu, ou)) >= thres )
-            excs.push_back( GetSingExUpSt( vu, ou, sign ) );
+          excs.push_back( GetSingExUpSt( vu, ou, sign ) );
       // Single - Down
       for( auto od : occs_do )
         for( auto vd : virts_do )
-          if( std::abs(pint->get(vd , od)) >= thres )
-            excs.push_back( GetSingExDoSt( vd, od, sign ) );
+          excs.push_back( GetSingExDoSt( vd, od, sign ) );
  
       // Build double excitations.
       // Double - Up/Up
@@ -234,8 +233,8 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_up.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_up.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
-               || std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
+              if( std::abs(pint->getChem(virts_up[iv1], occs_up[io1], virts_up[iv2], occs_up[io2])) >= thres 
+               || std::abs(pint->getChem(virts_up[iv1], occs_up[io2], virts_up[iv2], occs_up[io1])) >= thres )
                 excs.push_back( tmp.GetSingExUpSt( virts_up[iv2], occs_up[io2], sign ) );
          }
       // Double - Do/Do
@@ -245,8 +244,8 @@ namespace cmz
           slater_det tmp = GetSingExDoSt( virts_do[iv1], occs_do[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
-               || std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
+              if( std::abs(pint->getChem(virts_do[iv1], occs_do[io1], virts_do[iv2], occs_do[io2])) >= thres 
+               || std::abs(pint->getChem(virts_do[iv1], occs_do[io2], virts_do[iv2], occs_do[io1])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
       // Double - Up/Do
@@ -256,7 +255,7 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = 0; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = 0; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
+              if( std::abs(pint->getChem(virts_up[iv1], occs_up[io1], virts_do[iv2], occs_do[io2])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
 
-- 
2.43.0


From e00faef81e4d16ebe16065bee85947ba76f8bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 43/56] fix: legacy UpdateFromAS overwrote the Coulomb part of
 the inactive 2-RDM diagonal with the exchange part

---
 attic/inc/cmz_ed/rdms.h++ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index b0a7549..a01f4cd 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -603,8 +603,8 @@ namespace cmz
             {
               for( auto const &j: ints.iorbs )
               {
-                rdm2[ indexer(i,j,i,j) ] =  4.;
-                rdm2[ indexer(i,j,j,i) ] = -2.;
+                rdm2[ indexer(i,j,i,j) ] += 4.;
+                rdm2[ indexer(i,j,j,i) ] -= 2.;
               }
               for( int64_t ac1 = 0; ac1 < as_size; ac1++ )
               {
-- 
2.43.0


From 1cbb51640bc48b2b272857badf218e0ae930724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 44/56] fix: legacy read_RDMs read the four-byte orbital count
 into half of an uninitialised eight-byte integer

---
 attic/inc/cmz_ed/rdms.h++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index a01f4cd..a2cce6f 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -487,7 +487,7 @@ namespace cmz
             if(!ifile)
               throw ("Could not open " + file);
     
-            int64_t norbs;
+            int norbs;
        
             ifile.read((char*) &norbs, sizeof(int));
     
-- 
2.43.0


From faf7aca69108a5b7c13fa15f6fcfb75669c7d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 45/56] fix: legacy ReadInput took a blank line for a
 repetition of the previous key and gave keys without a value the previous
 value

---
 attic/src/cmz_ed/utils.c++ | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index 20c9c7e..b6a82a5 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -118,7 +118,8 @@ namespace cmz
       while(getline(ifile, line)){
         if(line[0] == '#' || line[0] == '!' || line[0] == '%') continue;
         istringstream iss(line);
-        iss >> key;
+        if(!(iss >> key)) continue;
+        val.clear();
         iss >> std::ws;
         std::getline(iss, val);
         if(input.find(key) == input.end()){
-- 
2.43.0


From 7171d80b3a706bcedfa41a8e925c93f13fdcbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:33 +0000
Subject: [PATCH 46/56] fix: Davidson correction step does not divide by a
 diagonal element equal to the Ritz value

---
 include/macis/solvers/davidson.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 8c3854c..fb9ee1f 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -217,8 +217,11 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    // A diagonal element at the Ritz value must not divide by zero
     for(auto j = 0; j < N; ++j) {
-      R[j] = -R[j] / (D[j] - LAM[0]);
+      auto denom = D[j] - LAM[0];
+      if(std::abs(denom) < 1e-8) denom = std::copysign(1e-8, denom);
+      R[j] = -R[j] / denom;
     }
 
     // Project new vector out form old vectors
@@ -397,8 +400,11 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    // A diagonal element at the Ritz value must not divide by zero
     for(auto j = 0; j < N_local; ++j) {
-      R_local[j] = -R_local[j] / (D_local[j] - LAM[0]);
+      auto denom = D_local[j] - LAM[0];
+      if(std::abs(denom) < 1e-8) denom = std::copysign(1e-8, denom);
+      R_local[j] = -R_local[j] / denom;
     }
 
     // Project new vector out form old vectors
-- 
2.43.0


From 2eecd07ee2dc3116e52b494dbc4cadb15a26f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 47/56] fix: parallel ASCI search prunes contributions without
 losing track of the finished constraints

---
 include/macis/asci/determinant_search.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 77e520b..808466f 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -356,12 +356,17 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // Prune Down Contributions
       if(asci_pairs.size() > asci_settings.pair_size_max) {
-        // Remove small contributions
-        auto it = std::partition(
-            asci_pairs.begin(), asci_pairs.end(), [=](const auto& x) {
-              return std::abs(x.rv) > asci_settings.rv_prune_tol;
-            });
-        asci_pairs.erase(it, asci_pairs.end());
+        // Remove small contributions, without mixing those of the current
+        // constraint with those of the previous ones
+        auto small = [=](const auto& x) {
+          return !(std::abs(x.rv) > asci_settings.rv_prune_tol);
+        };
+        size_before -=
+            std::count_if(asci_pairs.begin(), asci_pairs.begin() + size_before,
+                          small);
+        asci_pairs.erase(
+            std::remove_if(asci_pairs.begin(), asci_pairs.end(), small),
+            asci_pairs.end());
 
         auto c_indices = bits_to_indices(C);
         std::string c_string;
-- 
2.43.0


From 907d8ef4f655efc39243901e77e7b608a37b7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 48/56] fix: FCIDUMP readers took namelist header lines with
 five tokens for integrals and threw

---
 src/macis/fcidump.cxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 5368d70..22ed624 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -61,6 +61,13 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   return std::make_tuple(p, q, r, s, integral);
 }
 
+// Lines of the namelist header, e.g. "&FCI NORB= 4,NELEC= 4,MS2= 0,", are not
+// FCIDUMP lines, whatever their number of tokens
+bool is_fcidump_line(const std::string& line,
+                     const std::vector<std::string>& tokens) {
+  return tokens.size() == 5 and line.find_first_of("&$=,/") == line.npos;
+}
+
 enum LineClassification { Core, OrbitalEnergy, OneBody, TwoBody };
 
 LineClassification line_classification(int p, int q, int r, int s) {
@@ -82,7 +89,7 @@ uint32_t read_fcidump_norb(std::string fname) {
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
 
@@ -97,7 +104,7 @@ double read_fcidump_core(std::string fname) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -120,7 +127,7 @@ void read_fcidump_1body_impl(std::string fname, Span T) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -159,7 +166,7 @@ void read_fcidump_2body_impl(std::string fname, Span V) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
-- 
2.43.0


From 40a49a8f23b8f5e9df998a7d0775927a424c2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 49/56] fix: FCIDUMP readers lost the exponents of numbers
 written by Fortran with a D

---
 src/macis/fcidump.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 22ed624..685505d 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -41,18 +41,26 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   int32_t p, q, r, s;
   double integral;
 
+  // Fortran programs may write double precision exponents with a D
+  auto to_double = [](std::string str) {
+    std::replace_if(
+        str.begin(), str.end(), [](auto c) { return c == 'D' or c == 'd'; },
+        'e');
+    return std::stod(str);
+  };
+
   if(idx_first) {
     p = std::stoi(tokens[0]);
     q = std::stoi(tokens[1]);
     r = std::stoi(tokens[2]);
     s = std::stoi(tokens[3]);
-    integral = std::stod(tokens[4]);
+    integral = to_double(tokens[4]);
   } else {
     p = std::stoi(tokens[1]);
     q = std::stoi(tokens[2]);
     r = std::stoi(tokens[3]);
     s = std::stoi(tokens[4]);
-    integral = std::stod(tokens[0]);
+    integral = to_double(tokens[0]);
   }
 
   if(p < 0 or q < 0 or r < 0 or s < 0)
-- 
2.43.0


From f9fd55c4965efd0b92b822c71d840cee9872db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 50/56] fix: FCIDUMP readers silently skipped lines separated
 by tabs

---
 src/macis/fcidump.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 685505d..d58d135 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -96,7 +96,7 @@ uint32_t read_fcidump_norb(std::string fname) {
   std::string line;
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s");
     if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
@@ -111,7 +111,7 @@ double read_fcidump_core(std::string fname) {
   std::ifstream file(fname);
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s");
     if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
@@ -134,7 +134,7 @@ void read_fcidump_1body_impl(std::string fname, Span T) {
   std::ifstream file(fname);
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s");
     if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
@@ -173,7 +173,7 @@ void read_fcidump_2body_impl(std::string fname, Span V) {
   std::ifstream file(fname);
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s");
     if(!is_fcidump_line(line, tokens)) continue;
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
-- 
2.43.0


From abcbac742442d7b1a4cf9b68967d083ce75627c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 51/56] fix: symmetric Rutherford-Boeing files were read as
 their stored triangle only

---
 src/sparsexx/include/sparsexx/io/read_rb.hpp | 36 ++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index 2eac213..a7d9316 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -8,11 +8,14 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <fstream>
 #include <sparsexx/matrix_types/type_traits.hpp>
 #include <sparsexx/util/string.hpp>
 #include <string>
+#include <tuple>
+#include <vector>
 
 namespace sparsexx {
 
@@ -28,7 +31,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
 
   // Get useful meta data
   int64_t m, n, nnz;
-  // bool is_sym;
+  bool is_sym;
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
@@ -40,7 +43,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
     nnz = std::stoll(tokens[3]);
     // Whats the last one for??
 
-    // is_sym = type[1] == 's' or type[1] == 'S';
+    is_sym = type[1] == 's' or type[1] == 'S';
     assert(nnz <= m * n);
   }
 
@@ -74,6 +77,35 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   }
 
   assert(!std::getline(f_in, line));
+
+  // Only one triangle of a symmetric matrix is stored
+  if(is_sym) {
+    std::vector<std::tuple<int64_t, int64_t, T>> elements;  // (col, row, val)
+    for(int64_t j = 0; j < n; ++j)
+      for(int64_t k = A.colptr()[j] - 1; k < A.colptr()[j + 1] - 1; ++k) {
+        const int64_t i = A.rowind()[k] - 1;
+        elements.emplace_back(j, i, A.nzval()[k]);
+        if(i != j) elements.emplace_back(i, j, A.nzval()[k]);
+      }
+    std::sort(elements.begin(), elements.end(),
+              [](const auto& x, const auto& y) {
+                return std::tie(std::get<0>(x), std::get<1>(x)) <
+                       std::tie(std::get<0>(y), std::get<1>(y));
+              });
+
+    csc_matrix<T, index_t, Alloc> A_full(m, n, elements.size());
+    std::fill(A_full.colptr().begin(), A_full.colptr().end(), 1);
+    for(size_t k = 0; k < elements.size(); ++k) {
+      const auto& [j, i, v] = elements[k];
+      A_full.colptr()[j + 1]++;
+      A_full.rowind()[k] = i + 1;
+      A_full.nzval()[k] = v;
+    }
+    for(int64_t j = 0; j < n; ++j)
+      A_full.colptr()[j + 1] += A_full.colptr()[j] - 1;
+    return A_full;
+  }
+
   return A;
 }
 
-- 
2.43.0


From e41fcb83c6286c872eae79ae5a2fd70794a3441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 52/56] fix: pattern Rutherford-Boeing files were read with
 zero values

---
 src/sparsexx/include/sparsexx/io/read_rb.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index a7d9316..21dcf54 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -31,7 +31,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
 
   // Get useful meta data
   int64_t m, n, nnz;
-  bool is_sym;
+  bool is_sym, is_pattern;
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
@@ -44,6 +44,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
     // Whats the last one for??
 
     is_sym = type[1] == 's' or type[1] == 'S';
+    is_pattern = type[0] == 'p' or type[0] == 'P';
     assert(nnz <= m * n);
   }
 
@@ -69,7 +70,8 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   }
 
   curcount = 0;
-  while(std::getline(f_in, line)) {
+  if(is_pattern) std::fill(A.nzval().begin(), A.nzval().end(), T(1));
+  while(!is_pattern and std::getline(f_in, line)) {
     auto tokens = tokenize(line);
     for(const auto& t : tokens) A.nzval()[curcount++] = std::stod(t);
 
-- 
2.43.0


From c2c827474bdba44825cfb15c934bef2a9dc490cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 53/56] fix: Matrix Market reader crashed on blank lines and on
 missing or empty files

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp  | 7 ++++---
 src/sparsexx/include/sparsexx/util/string.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 378411e..01c79c4 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -258,17 +258,17 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
 
     // Check if this is actually a MM file...
 
-    if(tokens[0].compare("%%MatrixMarket") or tokens.size() != 5)
+    if(tokens.size() != 5 or tokens[0].compare("%%MatrixMarket"))
       throw std::runtime_error(fname + " is not a MM file");
 
     is_sym = !tokens[4].compare("symmetric");
 
     while(std::getline(f_in, line)) {
-      if(line[0] != '%') break;
+      tokens = tokenize(line);
+      if(tokens.size() and line[0] != '%') break;
     }
 
     // std::getline( f_in, line );
-    tokens = tokenize(line);
     if(tokens.size() != 3)
       throw std::runtime_error(
           fname + " contains an invalid spec for problem dimension");
@@ -321,6 +321,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
   size_t nnz_true = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
+    if(tokens.empty()) continue;
     int64_t i = std::stoll(tokens[0]);
     int64_t j = std::stoll(tokens[1]);
     T v = (tokens.size() == 3) ? std::stod(tokens[2]) : 1.;
diff --git a/src/sparsexx/include/sparsexx/util/string.hpp b/src/sparsexx/include/sparsexx/util/string.hpp
index c15fb5b..f5d676a 100644
--- a/src/sparsexx/include/sparsexx/util/string.hpp
+++ b/src/sparsexx/include/sparsexx/util/string.hpp
@@ -31,7 +31,7 @@ static inline std::string& rtrim(std::string& s) {
 static inline std::string& trim(std::string& s) { return ltrim(rtrim(s)); }
 
 static inline std::vector<std::string> tokenize(
-    const std::string& str, const std::string& delimiters = " ") {
+    const std::string& str, const std::string& delimiters = " \t\r") {
   std::vector<std::string> tokens;
   // Skip delimiters at beginning.
   std::string::size_type lastPos = str.find_first_not_of(delimiters, 0);
-- 
2.43.0


From aa1c573a5473371697d485e235be1da545972431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 54/56] fix: sparse matrix readers accepted files cut short or
 missing

---
 src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp | 4 ++++
 src/sparsexx/include/sparsexx/io/read_mm.hpp              | 8 +++++++-
 src/sparsexx/include/sparsexx/io/read_rb.hpp              | 7 ++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
index 298e1e0..0a2df6f 100644
--- a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
@@ -31,12 +31,16 @@ detail::enable_if_coo_matrix_t<SpMatType, SpMatType> read_binary_triplet_as_coo(
   f_in.read((char*)&n, sizeof(index_t));
   f_in.read((char*)&nnz, sizeof(size_t));
 
+  if(!f_in) throw std::runtime_error(fname + " is not a binary triplet file");
+
   std::cout << "Reading bin data" << std::endl;
   SpMatType A(m, n, nnz);
   f_in.read((char*)A.rowind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.colind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.nzval().data(), nnz * sizeof(value_t));
 
+  if(!f_in) throw std::runtime_error(fname + " is incomplete");
+
   A.determine_indexing_from_adj();
   A.expand_from_triangle();
   A.sort_by_row_index();
diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 01c79c4..39e99fa 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -250,7 +250,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
 
   std::string line;
 
-  int64_t m, n, nnz_min;
+  int64_t m, n, nnz_min, nnz_file;
   bool is_sym = false;
   {
     std::getline(f_in, line);
@@ -280,6 +280,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     if(is_sym and m != n)
       throw std::runtime_error(fname + " symmetric not compatible with M!=N");
 
+    nnz_file = nnz_min;
     if(is_sym) nnz_min *= 2;
   }
 
@@ -319,6 +320,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
   nzval.reserve(nnz_min);
 
   size_t nnz_true = 0;
+  int64_t nnz_read = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
     if(tokens.empty()) continue;
@@ -330,6 +332,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     colind.push_back(j);
     nzval.push_back(v);
     nnz_true++;
+    nnz_read++;
 
     if(is_sym and i != j) {
       rowind.push_back(j);
@@ -339,6 +342,9 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     }
   }
 
+  if(nnz_read != nnz_file)
+    throw std::runtime_error(fname + " does not hold the elements it announces");
+
   coo_matrix<T, index_t, Alloc> A(m, n, std::move(colind), std::move(rowind),
                                   std::move(nzval));
 #endif
diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index 21dcf54..e80e444 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -13,6 +13,7 @@
 #include <fstream>
 #include <sparsexx/matrix_types/type_traits.hpp>
 #include <sparsexx/util/string.hpp>
+#include <stdexcept>
 #include <string>
 #include <tuple>
 #include <vector>
@@ -35,7 +36,8 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
-    assert(tokens.size() == 5);
+    if(tokens.size() < 4)
+      throw std::runtime_error(fname + " is not a RB file");
 
     auto type = tokens[0];
     m = std::stoll(tokens[1]);
@@ -68,6 +70,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
 
     if(curcount == nnz) break;
   }
+  if(curcount != nnz) throw std::runtime_error(fname + " is incomplete");
 
   curcount = 0;
   if(is_pattern) std::fill(A.nzval().begin(), A.nzval().end(), T(1));
@@ -78,6 +81,8 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
     if(curcount == nnz) break;
   }
 
+  if(not is_pattern and curcount != nnz)
+    throw std::runtime_error(fname + " is incomplete");
   assert(!std::getline(f_in, line));
 
   // Only one triangle of a symmetric matrix is stored
-- 
2.43.0


From 8de01de79ec14f71814577658bb8c52bb4a48192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:47 +0000
Subject: [PATCH 55/56] fix: DIIS weights vanish when the error vectors are
 large

---
 include/macis/util/diis.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/macis/util/diis.hpp b/include/macis/util/diis.hpp
index 32c9140..8020209 100644
--- a/include/macis/util/diis.hpp
+++ b/include/macis/util/diis.hpp
@@ -10,6 +10,7 @@
 #include <spdlog/sinks/stdout_color_sinks.h>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <blas.hh>
 #include <lapack.hh>
 #include <memory>
@@ -65,6 +66,14 @@ class DIIS {
         }
       }
 
+    // Scale to unit magnitude: the weights are invariant, but the constraint
+    // would otherwise fall below working precision for large errors
+    double b_max = 0.0;
+    for(size_t i = 0; i < ndiis; ++i)
+      b_max = std::max(b_max, B[i + i * (ndiis + 1)]);
+    if(b_max > 0.0)
+      for(auto& b : B) b /= b_max;
+
     // Pad DIIS matrix
     for(size_t i = 0; i < ndiis; ++i) {
       B[i + ndiis * (ndiis + 1)] = 1.0;
-- 
2.43.0


From bf636fefe0f14f4eb2508bf72b958d5b481e3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:15 +0000
Subject: [PATCH 56/56] fix: constraint masks of more than 64 orbitals
 overflowed a machine word

---
 include/macis/asci/mask_constraints.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index 7d18b74..95d7ee5 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -27,9 +27,7 @@ auto make_triplet(unsigned i, unsigned j, unsigned k) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k);
-  con.B = 1;
-  con.B <<= k;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(size_t(k));
   con.C_min = k;
 
   return con;
@@ -41,9 +39,7 @@ auto make_quad(unsigned i, unsigned j, unsigned k, unsigned l) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k).flip(l);
-  con.B = 1;
-  con.B <<= l;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(size_t(l));
   con.C_min = l;
 
   return con;
-- 
2.43.0

