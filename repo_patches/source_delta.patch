From 3ae6e2ba9fab3ed48f728cc22c7125ff7ad4fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:19 +0000
Subject: [PATCH 01/45] fix: keep row counts when adding a ParticleDat with an
 npart cell hint

With NESO_PARTICLES_NPART_CELL_HINT set, adding a ParticleDat set the number
of rows of every cell to the hint, whatever the cell occupancies. Cells then
returned more rows than particles, or lost rows on the next reallocation.
---
 include/neso_particles/particle_group.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/particle_group.hpp b/include/neso_particles/particle_group.hpp
index d3dc6b6..b81a62c 100644
--- a/include/neso_particles/particle_group.hpp
+++ b/include/neso_particles/particle_group.hpp
@@ -303,7 +303,14 @@ protected:
 
     if (this->npart_cell_hint > 0) {
       for (int cellx = 0; cellx < this->ncell; cellx++) {
-        particle_dat->realloc(cellx, static_cast<int>(this->npart_cell_hint));
+        // Allocate at least the hinted space but never reduce the number of
+        // rows below the current occupancy of the cell.
+        const int npart_cell = static_cast<int>(this->h_npart_cell.ptr[cellx]);
+        const int npart_hint = static_cast<int>(this->npart_cell_hint);
+        particle_dat->realloc(cellx, npart_cell > npart_hint ? npart_cell
+                                                             : npart_hint);
+        // Keep the allocation and restore the row count to the occupancy.
+        particle_dat->realloc(cellx, npart_cell);
       }
       particle_dat->cell_dat.wait_set_nrow();
     }
-- 
2.43.0


From e7be8c7f99cb165cc82a6b1ce50d4e4a8fc66b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 02/45] fix: read explicit product cells from the component
 offset of the cell id property

---
 src/particle_group.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index db8864e..2ebdb89 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -326,7 +326,10 @@ void ParticleGroup::add_particles_local(
           .wait_and_throw();
     }
   } else { // Use cells explicitly defined in the product matrix
-    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_index;
+    INT const *source_cells_ptr =
+        d_pm.ptr_int +
+        num_products *
+            product_matrix->dh_offsets_int->h_buffer.ptr[cell_id_index];
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
-- 
2.43.0


From 34c929f0c4938629f8f42929a750b74b83fed550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 03/45] fix: mask off descendants without a parent when the
 cell id is an explicit product property

---
 src/particle_group.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index 2ebdb89..0d28eef 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -330,9 +330,20 @@ void ParticleGroup::add_particles_local(
         d_pm.ptr_int +
         num_products *
             product_matrix->dh_offsets_int->h_buffer.ptr[cell_id_index];
-    this->sycl_target->queue
-        .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
-        .wait_and_throw();
+    if (d_cells == nullptr) {
+      this->sycl_target->queue
+          .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
+          .wait_and_throw();
+    } else { // Products without a parent are masked off.
+      this->sycl_target->queue
+          .parallel_for<>(sycl::range<1>(static_cast<size_t>(num_products)),
+                          [=](sycl::id<1> idx) {
+                            cells_ptr[idx] = (d_cells[idx] < 0)
+                                                 ? static_cast<INT>(-1)
+                                                 : source_cells_ptr[idx];
+                          })
+          .wait_and_throw();
+    }
   }
 
   // If any of the cells are -1 we trim those particles by setting layers to -1.
-- 
2.43.0


From b093a9c36f373862bf8c7ed183089474a978bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:55 +0000
Subject: [PATCH 04/45] fix: CellDatConst::set_cell copies each column of a
 CellData with more rows than the matrix

---
 include/neso_particles/containers/cell_dat_const.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/neso_particles/containers/cell_dat_const.hpp b/include/neso_particles/containers/cell_dat_const.hpp
index 45ea1b1..b055f3e 100644
--- a/include/neso_particles/containers/cell_dat_const.hpp
+++ b/include/neso_particles/containers/cell_dat_const.hpp
@@ -705,11 +705,12 @@ public:
                "CellData as insuffient column count.");
 
     if (this->nrow > 0 && this->ncol > 0) {
-      this->sycl_target->queue
-          .memcpy(&this->d_ptr[cell * this->stride],
-                  cell_data->get_column_ptr(0),
-                  this->nrow * this->ncol * sizeof(T))
-          .wait_and_throw();
+      for (int colx = 0; colx < this->ncol; colx++) {
+        this->sycl_target->queue
+            .memcpy(&this->d_ptr[cell * this->stride + colx * this->nrow],
+                    cell_data->get_column_ptr(colx), this->nrow * sizeof(T))
+            .wait_and_throw();
+      }
     }
   }
 
-- 
2.43.0


From 31604f2126063a39897e1dd50f29afc2a8428b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:45 +0000
Subject: [PATCH 05/45] fix: rebuild cached SymVector pointers when a
 ParticleDat is replaced

---
 .../containers/sym_vector_pointer_cache.hpp   | 58 ++++++++++++-------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/include/neso_particles/containers/sym_vector_pointer_cache.hpp b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
index 80e7833..827321a 100644
--- a/include/neso_particles/containers/sym_vector_pointer_cache.hpp
+++ b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
@@ -29,6 +29,11 @@ protected:
   std::map<std::vector<Sym<T>>,
            std::unique_ptr<BufferDevice<ParticleDatImplGetConstT<T>>>>
       map_syms_const_ptrs;
+  /// The pointers each device buffer was created with.
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetT<T>>>
+      map_syms_host_ptrs;
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetConstT<T>>>
+      map_syms_host_const_ptrs;
 
   // Keys that contain EphemeralDats.
   std::set<std::vector<Sym<T>>> ephemeral_keys;
@@ -43,6 +48,8 @@ public:
   inline void reset() {
     this->map_syms_ptrs.clear();
     this->map_syms_const_ptrs.clear();
+    this->map_syms_host_ptrs.clear();
+    this->map_syms_host_const_ptrs.clear();
   }
 
   /**
@@ -52,6 +59,8 @@ public:
     for (auto &keyx : this->ephemeral_keys) {
       this->map_syms_ptrs.erase(keyx);
       this->map_syms_const_ptrs.erase(keyx);
+      this->map_syms_host_ptrs.erase(keyx);
+      this->map_syms_host_const_ptrs.erase(keyx);
     }
     this->ephemeral_keys.clear();
   }
@@ -158,19 +167,23 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create(std::vector<Sym<T>> &syms) {
-    if (!this->in_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetT<T>> ptrs(n);
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    // The ParticleDat a Sym refers to can be removed and replaced, in that case
+    // the cached pointers are to the old ParticleDat.
+    if ((!this->in_cache(syms)) ||
+        (this->map_syms_host_ptrs.at(syms) != ptrs)) {
       this->map_syms_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_host_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
@@ -183,20 +196,23 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create_const(std::vector<Sym<T>> &syms) {
-    if (!this->in_const_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
-
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    // The ParticleDat a Sym refers to can be removed and replaced, in that case
+    // the cached pointers are to the old ParticleDat.
+    if ((!this->in_const_cache(syms)) ||
+        (this->map_syms_host_const_ptrs.at(syms) != ptrs)) {
       this->map_syms_const_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetConstT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_host_const_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
-- 
2.43.0


From f91088e955549d961e3eeb27730869ab7acac7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 06/45] fix: a property which is removed and added again does
 not reuse version numbers

Sub groups that depend on the property compared their stored version with the
restarted count and could keep a stale selection.
---
 include/neso_particles/particle_group.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/particle_group.hpp b/include/neso_particles/particle_group.hpp
index b81a62c..f30dad4 100644
--- a/include/neso_particles/particle_group.hpp
+++ b/include/neso_particles/particle_group.hpp
@@ -245,6 +245,8 @@ protected:
   // This member tracks the versions of the particle dat data
   std::map<ParticleDatVersion, std::tuple<std::int64_t, bool>>
       particle_dat_versions;
+  // The version given to the next particle dat which is added.
+  std::int64_t particle_dat_version_initial{1};
   // This member tracks the versions of the particle dat structure, which is
   // also the version of the particle group itself. Calls to methods which
   // modify the number of cells or layers will increment this value.
@@ -278,6 +280,13 @@ protected:
 
   template <typename T>
   inline void remove_particle_dat_common(ParticleDatSharedPtr<T> particle_dat) {
+    // Never reuse a version number if a ParticleDat with this Sym is added again
+    // as a version held elsewhere would then appear to be current.
+    this->particle_dat_version_initial =
+        std::max(this->particle_dat_version_initial,
+                 std::get<0>(this->particle_dat_versions.at(
+                     ParticleDatVersion{particle_dat->sym})) +
+                     1);
     this->particle_dat_versions.erase(particle_dat->sym);
     this->particle_spec.remove(ParticleProp(
         particle_dat->sym, particle_dat->ncomp, particle_dat->positions));
@@ -293,10 +302,11 @@ protected:
     particle_dat->set_d_npart_cell_es(this->dh_npart_cell_es->d_buffer.ptr);
     particle_dat->npart_host_to_device();
     this->add_invalidate_callback(particle_dat);
-    // This store is initialised with 1 and the to test keys should be
+    // This store is initialised with at least 1 and the to test keys should be
     // initialised with 0.
     ParticleDatVersion key{particle_dat->sym};
-    std::tuple<int64_t, bool> value = {1, false};
+    std::tuple<int64_t, bool> value = {this->particle_dat_version_initial,
+                                       false};
     NESOASSERT(this->particle_dat_versions.count(key) == 0,
                "ParticleDat already in version tracker.");
     this->particle_dat_versions[key] = value;
-- 
2.43.0


From a4b7d08aceb2ed8d2a0efe1cf823b4334957f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 07/45] fix: sub groups made from a static sub group are
 rebuilt when it is updated

A sub group built while its parent was static had already seen the versions
of the changed properties and stayed stale once the parent became dynamic or
was explicitly recreated.
---
 .../particle_sub_group_base.hpp               |  1 +
 .../particle_sub_group_base.cpp               | 23 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp b/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp
index 394050f..6b4b45a 100644
--- a/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp
+++ b/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp
@@ -53,6 +53,7 @@ public:
   virtual void prepare_ephemeral_dats() override;
   virtual bool invalidate_ephemeral_dats_if_required() override;
   bool create_inner();
+  void invalidate_dependents();
   void check_selector(
       ParticleSubGroupImplementation::SubGroupSelectorBaseSharedPtr selector);
 
diff --git a/src/particle_sub_group/particle_sub_group_base.cpp b/src/particle_sub_group/particle_sub_group_base.cpp
index eb85767..275c88f 100644
--- a/src/particle_sub_group/particle_sub_group_base.cpp
+++ b/src/particle_sub_group/particle_sub_group_base.cpp
@@ -116,6 +116,8 @@ bool ParticleSubGroup::static_status(const std::optional<bool> status) {
       if (new_is_static) {
         // Create the sub group before we disable creating the sub group.
         this->create_if_required();
+      } else {
+        this->invalidate_dependents();
       }
       this->is_static = new_is_static;
     }
@@ -123,7 +125,26 @@ bool ParticleSubGroup::static_status(const std::optional<bool> status) {
   return this->is_static;
 }
 
-void ParticleSubGroup::create() { this->create_inner(); }
+void ParticleSubGroup::invalidate_dependents() {
+  // Sub groups created from this sub group have already seen the data versions
+  // for which this static sub group was not updated. New versions force these
+  // sub groups to be recreated.
+  bool bool_dats = false;
+  bool bool_group = false;
+  this->selector->update_required(&bool_dats, &bool_group);
+  if (bool_dats) {
+    for (const auto &dep : this->selector->particle_dat_versions) {
+      std::get<0>(this->particle_group->particle_dat_versions.at(dep.first))++;
+    }
+  }
+}
+
+void ParticleSubGroup::create() {
+  if (this->is_static) {
+    this->invalidate_dependents();
+  }
+  this->create_inner();
+}
 
 bool ParticleSubGroup::is_valid() {
   if (this->is_static) {
-- 
2.43.0


From 74087c6363990ee733c6821b7da90865b7051e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 08/45] fix: an empty CellwisePairListSimple has zero pairs

A pair list without pairs reported -1 pairs, which shifted the linear indices
of the following pair lists and made kernel RNG buffers too small or abort.
---
 src/pair_loop/cellwise_pair_list_simple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index ffb2011..082344c 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -247,7 +247,7 @@ void CellwisePairListSimple::clear() {
   }
   this->max_pair_count = -1;
   this->max_wave_count = -1;
-  this->pair_count = -1;
+  this->pair_count = 0;
   this->mode = 0;
 }
 
-- 
2.43.0


From a9a88be079d7b300964a99049bbcb8dd899392d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 09/45] fix: kernel RNGs can be used by a loop before any
 sample was required

A per particle or atomic block RNG whose first loop had no particles (or an
override of zero values) threw std::out_of_range looking up its buffer.
---
 include/neso_particles/containers/rng/host_rng_common.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neso_particles/containers/rng/host_rng_common.hpp b/include/neso_particles/containers/rng/host_rng_common.hpp
index 91b5669..8fed0e8 100644
--- a/include/neso_particles/containers/rng/host_rng_common.hpp
+++ b/include/neso_particles/containers/rng/host_rng_common.hpp
@@ -218,6 +218,10 @@ protected:
   }
 
   inline T *get_buffer_ptr(SYCLTargetSharedPtr sycl_target) {
+    // There is no buffer if no samples were ever required on this target.
+    if (!this->d_buffers.count(sycl_target)) {
+      return nullptr;
+    }
     return this->d_buffers.at(sycl_target)->ptr;
   }
 
-- 
2.43.0


From 1172c4dbb888cedeea8e085868435b3bcf64bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 10/45] fix: the atomic block RNG counter is initialised when
 no components are requested

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index da363d2..5eaf3ef 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -74,7 +74,8 @@ protected:
   inline void create_counter(SYCLTargetSharedPtr sycl_target) {
     if (!this->d_counters.count(sycl_target)) {
       this->d_counters[sycl_target] =
-          std::make_shared<BufferDevice<int>>(sycl_target, 2);
+          std::make_shared<BufferDevice<int>>(sycl_target,
+                                              std::vector<int>{0, 0});
     }
   }
 
@@ -192,6 +193,8 @@ public:
       sycl_target->profile_map.inc("HostAtomicBlockKernelRNG",
                                    "impl_pre_loop_read", 1,
                                    profile_elapsed(t0, profile_timestamp()));
+    } else {
+      this->reset_counter(global_info->particle_group->sycl_target);
     }
   }
 
-- 
2.43.0


From 17c10e053275ce234141fac1a95402438f00e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 11/45] fix: CellwisePairListSimple can be cleared and reused
 after a list with waves was set

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index 082344c..61ecab0 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -230,6 +230,14 @@ void CellwisePairListSimple::set(CellwisePairListHostSharedPtr pair_list) {
 
 void CellwisePairListSimple::clear() {
   if (this->cell_count > 0) {
+    // A call to set may have resized these containers to hold multiple waves.
+    const auto size = static_cast<std::size_t>(this->cell_count);
+    this->h_pair_counts.resize(size);
+    if (this->d_pair_counts->size != size) {
+      this->d_pair_counts =
+          std::make_shared<BufferDevice<int>>(this->sycl_target, size);
+    }
+
     auto k_wave_count = this->d_wave_count->ptr;
     auto k_pair_counts = this->d_pair_counts->ptr;
     auto k_wave_offsets = this->d_wave_offsets->ptr;
-- 
2.43.0


From 56cb021c72532ec3d831960b8b13950a65055d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 12/45] fix: NTC pair sampling from a sub group which is an
 entire ParticleGroup

---
 src/algorithms/dsmc/pair_sampler_ntc.cpp | 29 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/algorithms/dsmc/pair_sampler_ntc.cpp b/src/algorithms/dsmc/pair_sampler_ntc.cpp
index b1847a6..6aada3e 100644
--- a/src/algorithms/dsmc/pair_sampler_ntc.cpp
+++ b/src/algorithms/dsmc/pair_sampler_ntc.cpp
@@ -98,6 +98,11 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
   auto selection_a = sub_group_a->get_selection();
   auto selection_b = sub_group_b->get_selection();
 
+  // There is no map from loop layers to layers for a sub group which is an
+  // entire ParticleGroup as the map is the identity.
+  const bool whole_group_a = sub_group_a->is_entire_particle_group();
+  const bool whole_group_b = sub_group_b->is_entire_particle_group();
+
   const auto *k_npart_cell = particle_group->mpi_rank_dat->d_npart_cell;
   const auto *h_npart_cell = particle_group->mpi_rank_dat->h_npart_cell;
 
@@ -175,10 +180,14 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                const int i3 = selection_a.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, i2);
-                const int j3 = selection_b.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, j2);
+                const int i3 =
+                    whole_group_a ? i2
+                                  : selection_a.d_map_cells_to_particles
+                                        .map_loop_layer_to_layer(cell, i2);
+                const int j3 =
+                    whole_group_b ? j2
+                                  : selection_b.d_map_cells_to_particles
+                                        .map_loop_layer_to_layer(cell, j2);
 
                 const int wave_i = la_flags[i3];
                 const int wave_j = la_flags[j3];
@@ -267,10 +276,14 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                i3 = selection_a.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, i2);
-                j3 = selection_b.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, j2);
+                i3 = whole_group_a
+                         ? i2
+                         : selection_a.d_map_cells_to_particles
+                               .map_loop_layer_to_layer(cell, i2);
+                j3 = whole_group_b
+                         ? j2
+                         : selection_b.d_map_cells_to_particles
+                               .map_loop_layer_to_layer(cell, j2);
 
                 const int flag_i =
                     sycl::atomic_ref<int, sycl::memory_order::relaxed,
-- 
2.43.0


From 80d4896758dc05a75debc1bb571589aaa8a54a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 13/45] fix: matrix_transpose writes the output for row and
 column vectors

---
 include/neso_particles/algorithms/common.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/algorithms/common.hpp b/include/neso_particles/algorithms/common.hpp
index 44a2fd6..ee5063f 100644
--- a/include/neso_particles/algorithms/common.hpp
+++ b/include/neso_particles/algorithms/common.hpp
@@ -452,9 +452,15 @@ template <typename T>
 matrix_transpose(SYCLTargetSharedPtr sycl_target, const std::size_t num_rows,
                  const std::size_t num_cols, const T *RESTRICT const d_src,
                  T *RESTRICT d_dst) {
-  if ((num_rows <= 1) || (num_cols <= 1)) {
+  if ((num_rows == 0) || (num_cols == 0)) {
     return sycl::event();
   }
+  if ((num_rows == 1) || (num_cols == 1)) {
+    // The entries of a row or column vector have the same linear order in the
+    // transpose.
+    return sycl_target->queue.memcpy(d_dst, d_src,
+                                     num_rows * num_cols * sizeof(T));
+  }
   const std::size_t num_bytes_per_item = sizeof(T);
   std::size_t local_size =
       sycl_target->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
-- 
2.43.0


From a28d8a2829bfa9ed34952fbde149dce4600398e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 14/45] fix: get_neighbour_mh_cells accepts offsets larger than
 the number of cells

---
 src/mesh_hierarchy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh_hierarchy.cpp b/src/mesh_hierarchy.cpp
index 3ae4bb0..8d103c7 100644
--- a/src/mesh_hierarchy.cpp
+++ b/src/mesh_hierarchy.cpp
@@ -269,8 +269,10 @@ void get_neighbour_mh_cells(std::shared_ptr<MeshHierarchy> mesh_hierarchy,
             valid = valid && ((offset_dim_linear_unmapped >= 0) &&
                               (offset_dim_linear_unmapped < cell_counts[dimx]));
           }
+          // The offset may be larger than the number of cells
           const INT offset_dim_linear =
-              (offset_dim_linear_unmapped + cell_counts[dimx]) %
+              ((offset_dim_linear_unmapped % cell_counts[dimx]) +
+               cell_counts[dimx]) %
               cell_counts[dimx];
 
           // convert back to a mesh hierarchy tuple index
-- 
2.43.0


From bd267383259e6ea9f9555bab7f23b73678d7a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 15/45] fix: periodic wrapping leaves positions in the domain
 unchanged and handles distant positions

The offset in extents was cast to int, which overflows 2^31 extents away and
left the wrapped position outside of the domain. Adding the offset before the
fmod also rounded positions already in the domain, e.g. from just below the
upper end to the lower end.
---
 src/cartesian_mesh/cartesian_periodic.cpp | 50 ++++++++---------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_periodic.cpp b/src/cartesian_mesh/cartesian_periodic.cpp
index 4ae59d4..31bc5c9 100644
--- a/src/cartesian_mesh/cartesian_periodic.cpp
+++ b/src/cartesian_mesh/cartesian_periodic.cpp
@@ -14,29 +14,22 @@ CartesianPeriodic::CartesianPeriodic(SYCLTargetSharedPtr sycl_target,
     extents[dimx] = mesh->global_extents[dimx];
   }
   auto la_extents = std::make_shared<LocalArray<REAL>>(sycl_target, extents);
-  for (int dimx = 0; dimx < mesh->ndim; dimx++) {
-    extents[dimx] = 1.0 / mesh->global_extents[dimx];
-  }
-  auto la_inverse_extents =
-      std::make_shared<LocalArray<REAL>>(sycl_target, extents);
-
   this->pbc_loop = particle_loop(
       "CartesianPeriodicPBC", position_dat,
-      [=](auto P, auto E, auto IE) {
+      [=](auto P, auto E) {
         for (int dimx = 0; dimx < k_ndim; dimx++) {
           const REAL pos = P[dimx];
-          // offset the position in the current dimension to be
-          // positive by adding a value times the extent
-          const int n_extent_offset_int = Kernel::abs((int)(pos * IE.at(dimx)));
           const REAL tmp_extent = E.at(dimx);
-          const REAL n_extent_offset_real = n_extent_offset_int + 2;
-          const REAL pos_fmod =
-              Kernel::fmod(pos + n_extent_offset_real * tmp_extent, tmp_extent);
-          P[dimx] = pos_fmod;
+          // fmod is exact and has the sign of the position
+          REAL pos_fmod = Kernel::fmod(pos, tmp_extent);
+          if (pos_fmod < 0.0) {
+            pos_fmod += tmp_extent;
+          }
+          // the addition can round up to the extent
+          P[dimx] = (pos_fmod < tmp_extent) ? pos_fmod : 0.0;
         }
       },
-      Access::write(position_dat), Access::read(la_extents),
-      Access::read(la_inverse_extents));
+      Access::write(position_dat), Access::read(la_extents));
 }
 
 CartesianPeriodic::CartesianPeriodic(SYCLTargetSharedPtr sycl_target,
@@ -54,34 +47,27 @@ CartesianPeriodic::CartesianPeriodic(SYCLTargetSharedPtr sycl_target,
   }
   auto la_extents = std::make_shared<LocalArray<REAL>>(sycl_target, extents);
 
-  for (int dimx = 0; dimx < mesh->ndim; dimx++) {
-    extents[dimx] = 1.0 / mesh->global_extents[dimx];
-  }
-  auto la_inverse_extents =
-      std::make_shared<LocalArray<REAL>>(sycl_target, extents);
-
   auto la_masks = std::make_shared<LocalArray<int>>(sycl_target, masks);
 
   this->pbc_loop = particle_loop(
       "CartesianPeriodicPBCMasks", position_dat,
-      [=](auto P, auto M, auto E, auto IE) {
+      [=](auto P, auto M, auto E) {
         for (int dimx = 0; dimx < k_ndim; dimx++) {
           if (M.at(dimx)) {
             const REAL pos = P[dimx];
-            // offset the position in the current dimension to be
-            // positive by adding a value times the extent
-            const int n_extent_offset_int =
-                Kernel::abs((int)(pos * IE.at(dimx)));
             const REAL tmp_extent = E.at(dimx);
-            const REAL n_extent_offset_real = n_extent_offset_int + 2;
-            const REAL pos_fmod = Kernel::fmod(
-                pos + n_extent_offset_real * tmp_extent, tmp_extent);
-            P[dimx] = pos_fmod;
+            // fmod is exact and has the sign of the position
+            REAL pos_fmod = Kernel::fmod(pos, tmp_extent);
+            if (pos_fmod < 0.0) {
+              pos_fmod += tmp_extent;
+            }
+            // the addition can round up to the extent
+            P[dimx] = (pos_fmod < tmp_extent) ? pos_fmod : 0.0;
           }
         }
       },
       Access::write(position_dat), Access::read(la_masks),
-      Access::read(la_extents), Access::read(la_inverse_extents));
+      Access::read(la_extents));
 }
 
 CartesianPeriodic::CartesianPeriodic(std::shared_ptr<CartesianHMesh> mesh,
-- 
2.43.0


From c410fa79a93c2914d0511ac3dd52154aa9aca5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 16/45] fix: function_project divides by the area of the face
 cells in 3D

---
 src/cartesian_mesh/cartesian_trajectory_intersection.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 2a366c8..9c49a11 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -226,7 +226,12 @@ void CartesianTrajectoryIntersection::function_project_contribute(
     ErrorPropagate ep_dof(this->sycl_target);
     auto k_ep_found = ep_found.device_ptr();
     auto k_ep_dof = ep_dof.device_ptr();
-    const REAL k_inverse_width = func->mesh->inverse_cell_width_fine;
+    // The measure of a face cell is width^(ndim - 1) where ndim is the dimension
+    // of the mesh, i.e. ndim - 1 is the dimension of the function.
+    REAL k_inverse_measure = 1.0;
+    for (int dx = 0; dx < func->ndim; dx++) {
+      k_inverse_measure *= func->mesh->inverse_cell_width_fine;
+    }
 
     auto lambda_dispatch = [&](auto extract_quantity) {
       particle_loop(
@@ -246,7 +251,7 @@ void CartesianTrajectoryIntersection::function_project_contribute(
 #endif
               if (found) {
                 const REAL value = extract_quantity(SYM, component);
-                atomic_fetch_add(&k_buffer[*index], k_inverse_width * value);
+                atomic_fetch_add(&k_buffer[*index], k_inverse_measure * value);
               }
             }
           },
-- 
2.43.0


From c480cc477e4d02c801fafd20f9e795dc6831782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 17/45] fix: surface projections stay correct when the set of
 hit faces grows before they are finalised

---
 .../cartesian_trajectory_intersection.cpp     | 48 +++++++++++++------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 9c49a11..0ba4990 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -145,6 +145,27 @@ CartesianTrajectoryIntersection::create_function(
   return func;
 }
 
+namespace {
+
+/**
+ * Extend a staging buffer to hold at least the required number of entries. New
+ * entries are initialised to zero.
+ */
+inline void extend_dofs_stage(SYCLTargetSharedPtr sycl_target,
+                              BufferDevice<REAL> &d_dofs_stage,
+                              const std::size_t required_size) {
+  const std::size_t current_size = d_dofs_stage.size;
+  if (current_size < required_size) {
+    d_dofs_stage.realloc(required_size);
+    sycl_target->queue
+        .fill(d_dofs_stage.ptr + current_size, (REAL)0.0,
+              required_size - current_size)
+        .wait_and_throw();
+  }
+}
+
+} // namespace
+
 void CartesianTrajectoryIntersection::function_project_initialise(
     CartesianHMeshFunctionSharedPtr func) {
 
@@ -163,8 +184,11 @@ void CartesianTrajectoryIntersection::function_project_initialise(
   func->d_dofs_stage->realloc_no_copy(tmp_buffer_size);
   REAL *k_buffer = func->d_dofs_stage->ptr;
 
-  if (tmp_buffer_size > 0) {
-    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, tmp_buffer_size)
+  // Zero the entire buffer as the entries past tmp_buffer_size are used if more
+  // geometry objects become accessible before the projection is finalised.
+  const std::size_t stage_size = func->d_dofs_stage->size;
+  if (stage_size > 0) {
+    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, stage_size)
         .wait_and_throw();
   }
   func->fill(0.0);
@@ -190,19 +214,8 @@ void CartesianTrajectoryIntersection::function_project_contribute(
   const INT k_num_accessible_geoms = num_accessible_geoms;
 
   const auto cell_dof_count = func->cell_dof_count;
-  const INT current_stage_size = func->d_dofs_stage->size / cell_dof_count;
-  if (current_stage_size < k_num_accessible_geoms) {
-
-    func->d_dofs_stage->realloc(k_num_accessible_geoms * cell_dof_count);
-    const auto diff =
-        (k_num_accessible_geoms - current_stage_size) * cell_dof_count;
-    REAL *k_buffer =
-        func->d_dofs_stage->ptr + current_stage_size * cell_dof_count;
-    this->sycl_target->queue
-        .parallel_for(sycl::range<1>(diff),
-                      [=](auto idx) { k_buffer[idx] = 0.0; })
-        .wait_and_throw();
-  }
+  extend_dofs_stage(this->sycl_target, *func->d_dofs_stage,
+                    num_accessible_geoms * cell_dof_count);
 
   NESOASSERT(
       func->d_dofs_stage->size >=
@@ -284,6 +297,11 @@ void CartesianTrajectoryIntersection::function_project_finalise(
 
   const int group = func->boundary_group;
   auto &boundary_mesh_interface = this->map_groups_boundary_interface.at(group);
+  // More geometry objects may be accessible than when the last contribution was
+  // made. These have received no contributions.
+  extend_dofs_stage(this->sycl_target, *func->d_dofs_stage,
+                    boundary_mesh_interface->get_num_intersection_geoms() *
+                        func->cell_dof_count);
   boundary_mesh_interface->exchange_from_device(
       func->d_dofs_stage->ptr, func->cell_dof_count, func->d_dofs->ptr);
   func->reset_version();
-- 
2.43.0


From 5653411e6d4e4a21397a652dc0971ba7c6ca858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:17 +0000
Subject: [PATCH 18/45] fix: CellDat::set_value invalidates the sub groups
 which depend on the property

---
 include/neso_particles/containers/cell_dat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/containers/cell_dat.hpp b/include/neso_particles/containers/cell_dat.hpp
index 9767113..77c116d 100644
--- a/include/neso_particles/containers/cell_dat.hpp
+++ b/include/neso_particles/containers/cell_dat.hpp
@@ -522,6 +522,9 @@ public:
    */
   inline void set_value(const int cell, const int row, const int col,
                         const T value) {
+    if (this->write_callback) {
+      this->write_callback(0);
+    }
     this->sycl_target->queue
         .memcpy(this->h_ptr_cols[cell * this->ncol + col] + row, &value,
                 sizeof(T))
-- 
2.43.0


From 0e5c108f2ad8c686fa8378d0ead4d783c3e648f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 19/45] fix: exclusive scan sub group selector tolerates a
 parent which is recreated during and in between its two loops

---
 .../sub_group_selector_exclusive_scan.hpp     | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/neso_particles/particle_sub_group/sub_group_selector_exclusive_scan.hpp b/include/neso_particles/particle_sub_group/sub_group_selector_exclusive_scan.hpp
index f99c1cf..52d3244 100644
--- a/include/neso_particles/particle_sub_group/sub_group_selector_exclusive_scan.hpp
+++ b/include/neso_particles/particle_sub_group/sub_group_selector_exclusive_scan.hpp
@@ -84,12 +84,24 @@ protected:
       d_masks->realloc_no_copy(npart_local);
       int *k_masks = d_masks->ptr;
 
+      // The layers are recorded in the first loop as the second loop may iterate
+      // over a parent which was recreated with a different ordering.
+      auto d_layers = get_resource<BufferDevice<int>,
+                                   ResourceStackInterfaceBufferDevice<int>>(
+          sycl_target->resource_stack_map, ResourceStackKeyBufferDevice<int>{},
+          sycl_target);
+      d_layers->realloc_no_copy(npart_local);
+      int *k_layers = d_layers->ptr;
+
       auto e0 = sycl_target->queue.fill(static_cast<int *>(k_masks),
                                         static_cast<int>(0),
                                         static_cast<std::size_t>(npart_local));
-      this->map_ptrs->set({k_masks, nullptr});
+      this->map_ptrs->set({k_masks, k_layers});
       e0.wait_and_throw();
       this->loop_0->submit();
+      // Wait before the parent is accessed below as accessing the parent may
+      // recreate the parent.
+      this->loop_0->wait();
 
       auto d_masks_es = get_resource<BufferDevice<int>,
                                      ResourceStackInterfaceBufferDevice<int>>(
@@ -117,7 +129,6 @@ protected:
             k_npart_cell_es_parent[ix] =
                 static_cast<int>(k_npart_cell_es_parent_INT[ix]);
           });
-      this->loop_0->wait();
       e1.wait_and_throw();
       e2.wait_and_throw();
 
@@ -167,7 +178,7 @@ protected:
             if (required) {
               INT *base_map_for_cell =
                   base_map_cell_to_particles[loop_index.cell];
-              base_map_for_cell[layer] = loop_index.layer;
+              base_map_for_cell[layer] = k_layers[loop_linear_index];
             }
           },
           Access::read(ParticleLoopIndex{}))
@@ -186,6 +197,8 @@ protected:
                        d_npart_cell_es_parent);
       restore_resource(sycl_target->resource_stack_map,
                        ResourceStackKeyBufferDevice<int>{}, d_masks);
+      restore_resource(sycl_target->resource_stack_map,
+                       ResourceStackKeyBufferDevice<int>{}, d_layers);
       restore_resource(sycl_target->resource_stack_map,
                        ResourceStackKeyBufferDevice<int>{}, d_masks_es);
     };
@@ -223,6 +236,8 @@ public:
           const INT loop_linear_index = loop_index.get_loop_linear_index();
           if (required) {
             k_map_ptrs.at(0)[loop_linear_index] = 1;
+            k_map_ptrs.at(1)[loop_linear_index] =
+                static_cast<int>(loop_index.layer);
           }
         },
         Access::read(ParticleLoopIndex{}), Access::read(this->map_ptrs),
-- 
2.43.0


From efe512b8593e54d178ce513f7a3727e45bd0bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 20/45] fix: set_recv keeps values of element types other than
 int

---
 include/neso_particles/communication/communication_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/communication/communication_utility.hpp b/include/neso_particles/communication/communication_utility.hpp
index 3a0fb37..1321b85 100644
--- a/include/neso_particles/communication/communication_utility.hpp
+++ b/include/neso_particles/communication/communication_utility.hpp
@@ -158,7 +158,7 @@ std::set<T> set_recv(const int source, const int tag, MPI_Comm comm) {
     std::vector<T> recv_vector(recv_count);
     MPICHK(MPI_Recv(recv_vector.data(), recv_count, map_ctype_mpi_type<T>(),
                     source, tag, comm, MPI_STATUS_IGNORE));
-    for (int ix : recv_vector) {
+    for (const T ix : recv_vector) {
       return_set.insert(ix);
     }
   }
-- 
2.43.0


From da31654145533af5e397583950fa6bc1b96563a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:22 +0000
Subject: [PATCH 21/45] fix: H5Part::read returns no particles for a step which
 was written without any

---
 src/particle_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/particle_io.cpp b/src/particle_io.cpp
index 7624b9a..653b7ef 100644
--- a/src/particle_io.cpp
+++ b/src/particle_io.cpp
@@ -81,9 +81,12 @@ ParticleSetSharedPtr H5Part::read(ParticleSpec &particle_spec, INT step,
 
   hid_t group_step;
   H5CHK(group_step = H5Gopen(this->file_id, step_name.c_str(), H5P_DEFAULT));
-  INT npart_total;
+  INT npart_total = 0;
 
-  {
+  // A step which was written with no particles globally contains no datasets.
+  const htri_t x_exists = H5Lexists(group_step, "x", H5P_DEFAULT);
+  H5CHK(x_exists);
+  if (x_exists > 0) {
     hid_t dataset;
     H5CHK(dataset = H5Dopen(group_step, "x", H5P_DEFAULT));
     hid_t filespace;
-- 
2.43.0


From c03b8baa8a2f8d47fe2cdcc34144048abef364c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 22/45] fix: OverlayCartesianMesh::get_intersecting_cells in
 three dimensions

---
 src/external_interfaces/common/overlay_cartesian_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/overlay_cartesian_mesh.cpp b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
index b66b234..1f099f0 100644
--- a/src/external_interfaces/common/overlay_cartesian_mesh.cpp
+++ b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
@@ -162,7 +162,7 @@ void OverlayCartesianMesh::get_intersecting_cells(
     size *= (cell_upper - cell_lower);
   }
   cells.reserve(size);
-  std::vector<int> index(2);
+  std::vector<int> index(this->ndim);
   this->get_all_cells(0, cell_starts, cell_ends, index, cells);
 }
 
-- 
2.43.0


From 6467b7c4b6620a92c47d6bfbd3565054d3ca7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:37 +0000
Subject: [PATCH 23/45] fix: quad_cartesian_to_collapsed where the denominator
 for eta1 vanishes at the point

---
 .../common/coordinate_mapping.hpp             | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp b/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp
index 676b63f..bc97e9d 100644
--- a/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp
+++ b/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp
@@ -182,16 +182,29 @@ inline void quad_cartesian_to_collapsed(
   const bool bad_eta0p = Bpos ? bad2A : ((-B + determinate) == 0.0);
   const bool bad_eta0m = Bpos ? ((-B - determinate) == 0.0) : bad2A;
 
-  const REAL denom1p = Kernel::fma(b3, eta0p, b2);
-  const REAL denom1m = Kernel::fma(b3, eta0m, b2);
+  // Each row of the bilinear system gives eta1 from eta0. The denominator of
+  // one row may vanish at a particular eta0 hence use the row with the largest
+  // denominator for each candidate.
+  const REAL denom1ap = Kernel::fma(a3, eta0p, a2);
+  const REAL denom1am = Kernel::fma(a3, eta0m, a2);
+  const REAL denom1bp = Kernel::fma(b3, eta0p, b2);
+  const REAL denom1bm = Kernel::fma(b3, eta0m, b2);
+  const bool row_ap = Kernel::abs(denom1bp) < Kernel::abs(denom1ap);
+  const bool row_am = Kernel::abs(denom1bm) < Kernel::abs(denom1am);
+  const REAL denom1p = row_ap ? denom1ap : denom1bp;
+  const REAL denom1m = row_am ? denom1am : denom1bm;
   const bool bad_eta1p = (denom1p == 0.0) || (bad_eta0p);
   const bool bad_eta1m = (denom1m == 0.0) || (bad_eta0m);
 
   // pick correct eta0, eta1 pair
   // const REAL eta1p = (y - b0 - b1 * eta0p) / (b2 + b3 * eta0p);
-  REAL eta1p = Kernel::fma(-b1, eta0p, y - b0) / denom1p;
+  REAL eta1p = (row_ap ? Kernel::fma(-a1, eta0p, x - a0)
+                       : Kernel::fma(-b1, eta0p, y - b0)) /
+               denom1p;
   // const REAL eta1m = (y - b0 - b1 * eta0m) / (b2 + b3 * eta0m);
-  REAL eta1m = Kernel::fma(-b1, eta0m, y - b0) / denom1m;
+  REAL eta1m = (row_am ? Kernel::fma(-a1, eta0m, x - a0)
+                       : Kernel::fma(-b1, eta0m, y - b0)) /
+               denom1m;
 
   eta0p = (bad_eta0p) ? 1000.0 : eta0p;
   eta1p = (bad_eta1p) ? 1000.0 : eta1p;
-- 
2.43.0


From 37e4092a92dfa9fe5930324221b29b0dd4b9e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 24/45] fix: 2D unstructured point in cell tests accept points
 on horizontal edges and on every vertex

---
 src/external_interfaces/petsc/dmplex_helper.cpp            | 7 ++++++-
 .../petsc/particle_cell_mapping/dmplex_2d_mapper.cpp       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/external_interfaces/petsc/dmplex_helper.cpp b/src/external_interfaces/petsc/dmplex_helper.cpp
index e0b9d7e..b605a4d 100644
--- a/src/external_interfaces/petsc/dmplex_helper.cpp
+++ b/src/external_interfaces/petsc/dmplex_helper.cpp
@@ -561,7 +561,12 @@ bool DMPlexHelper::cell_contains_point(const PetscInt index,
     consistent_line_orientation_2d(xi_t, yi_t, xj_t, yj_t, &xi, &yi, &xj, &yj);
 
     // Is the point in a corner
-    if ((x0 == xj) && (x1 == yj)) {
+    if (((x0 == xj) && (x1 == yj)) || ((x0 == xi) && (x1 == yi))) {
+      num_crossings = 1;
+      break;
+    }
+    // Is the point on a horizontal line
+    if ((yi == yj) && (x1 == yj) && (xi <= x0) && (x0 <= xj)) {
       num_crossings = 1;
       break;
     }
diff --git a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
index d5afb1f..6d157a0 100644
--- a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
+++ b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
@@ -217,7 +217,12 @@ void DMPlex2DMapper::map(ParticleGroup &particle_group, const int map_cell) {
                                            &xj, &yj);
 
             // Is the point in a corner
-            if ((x0 == xj) && (x1 == yj)) {
+            if (((x0 == xj) && (x1 == yj)) || ((x0 == xi) && (x1 == yi))) {
+              num_crossings = 1;
+              break;
+            }
+            // Is the point on a horizontal line
+            if ((yi == yj) && (x1 == yj) && (xi <= x0) && (x0 <= xj)) {
               num_crossings = 1;
               break;
             }
-- 
2.43.0


From 7f4f711643e4af69ba790a5c6983ca632f91fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 25/45] fix: every mesh hierarchy cell that overlaps an element
 is claimed

---
 src/external_interfaces/common/local_claim.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/local_claim.cpp b/src/external_interfaces/common/local_claim.cpp
index a464a85..06f008f 100644
--- a/src/external_interfaces/common/local_claim.cpp
+++ b/src/external_interfaces/common/local_claim.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <neso_particles/external_interfaces/common/local_claim.hpp>
 
 namespace NESO::Particles::ExternalCommon {
@@ -139,7 +140,8 @@ void bounding_box_claim(int element_id, BoundingBoxSharedPtr bounding_box,
     const INT index_global = cell_volume.first;
     const double volume = cell_volume.second;
     const double ratio = volume * inverse_cell_volume;
-    const int weight = 1000000.0 * ratio;
+    // Cells with a non-empty overlap must always be claimed.
+    const int weight = std::max(1, static_cast<int>(1000000.0 * ratio));
 
     local_claim.claim(index_global, weight, ratio);
     mh_geom_map[index_global].push_back(element_id);
-- 
2.43.0


From 09a5fcbf6e18b69f54cac383a72124e73cbe1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 26/45] fix: mesh hierarchy cells touched by the upper sides of
 an element are claimed

---
 src/external_interfaces/common/local_claim.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/external_interfaces/common/local_claim.cpp b/src/external_interfaces/common/local_claim.cpp
index 06f008f..d053f25 100644
--- a/src/external_interfaces/common/local_claim.cpp
+++ b/src/external_interfaces/common/local_claim.cpp
@@ -114,12 +114,12 @@ void bounding_box_map(BoundingBoxSharedPtr element_bounding_box,
 
         const double volume = area_x * area_y * area_z;
 
-        if (volume > 0.0) {
-          mesh_tuple_to_mh_tuple(ndim, index_mesh, mesh_hierarchy, index_mh);
-          const INT index_global =
-              mesh_hierarchy->tuple_to_linear_global(index_mh);
-          cells.push_back({index_global, volume});
-        }
+        // A cell which only touches the upper sides of the bounding box has an
+        // overlap of zero but does contain points of the element.
+        mesh_tuple_to_mh_tuple(ndim, index_mesh, mesh_hierarchy, index_mh);
+        const INT index_global =
+            mesh_hierarchy->tuple_to_linear_global(index_mh);
+        cells.push_back({index_global, volume});
       }
     }
   }
@@ -140,7 +140,7 @@ void bounding_box_claim(int element_id, BoundingBoxSharedPtr bounding_box,
     const INT index_global = cell_volume.first;
     const double volume = cell_volume.second;
     const double ratio = volume * inverse_cell_volume;
-    // Cells with a non-empty overlap must always be claimed.
+    // Cells which contain a point of the element must always be claimed.
     const int weight = std::max(1, static_cast<int>(1000000.0 * ratio));
 
     local_claim.claim(index_global, weight, ratio);
-- 
2.43.0


From 52c47fa5bf3f84d0c9977f91cb975d1993a729ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 27/45] fix: DOFMapperDG::copy_from_external reads the external
 DOFs instead of overwriting them

---
 src/external_interfaces/common/dof_mapper_dg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/dof_mapper_dg.cpp b/src/external_interfaces/common/dof_mapper_dg.cpp
index 6b3d550..bec1aba 100644
--- a/src/external_interfaces/common/dof_mapper_dg.cpp
+++ b/src/external_interfaces/common/dof_mapper_dg.cpp
@@ -86,7 +86,7 @@ void DOFMapperDG::copy_from_external(CellDatConstSharedPtr<REAL> cell_dat_const,
       k_num_cells_local * k_num_dofs_per_cell * sizeof(REAL);
 
   if (num_bytes > 0) {
-    this->sycl_target->queue.memcpy(h_external_dofs, k_dofs, num_bytes)
+    this->sycl_target->queue.memcpy(k_dofs, h_external_dofs, num_bytes)
         .wait_and_throw();
 
     auto e1 = this->sycl_target->queue.submit([&](sycl::handler &cgh) {
-- 
2.43.0


From 9998b45b356f9b27255aa005710726a6b5a0427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 28/45] fix: get_local_point_from_global_point looks up the id
 it checked for signed ids

---
 src/external_interfaces/petsc/dmplex_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/external_interfaces/petsc/dmplex_helper.cpp b/src/external_interfaces/petsc/dmplex_helper.cpp
index b605a4d..69357f6 100644
--- a/src/external_interfaces/petsc/dmplex_helper.cpp
+++ b/src/external_interfaces/petsc/dmplex_helper.cpp
@@ -349,10 +349,10 @@ PetscInt DMPlexHelper::get_point_global_index(const PetscInt point,
 
 PetscInt DMPlexHelper::get_local_point_from_global_point(
     const PetscInt global_point_index) {
-  NESOASSERT(this->map_gobal_point_to_local_point.count(
-                 signed_global_id_to_global_id(global_point_index)),
+  const auto global_id = signed_global_id_to_global_id(global_point_index);
+  NESOASSERT(this->map_gobal_point_to_local_point.count(global_id),
              "Global point not found.");
-  return this->map_gobal_point_to_local_point[global_point_index];
+  return this->map_gobal_point_to_local_point[global_id];
 }
 
 ExternalCommon::BoundingBoxSharedPtr DMPlexHelper::get_bounding_box() {
-- 
2.43.0


From 32b82ea909b0ad862137b4c8cf5b6f50bce7ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 29/45] fix: QuadraturePointMapper::set reaches points which
 are held by another rank

---
 .../common/quadrature_point_mapper.cpp        | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index 8cdb0e9..59cdf9b 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -351,13 +351,38 @@ void QuadraturePointMapper::set(const int ncomp, std::vector<REAL> &input) {
   const int ncomp_local = this->npoint_local * ncomp;
   NESOASSERT(input.size() >= static_cast<std::size_t>(ncomp_local),
              "Input vector is too small.");
-  this->make_contribs_buffers(ncomp_local, 0);
+  const int ncomp_remote = this->npoint_remote * ncomp;
+  this->make_contribs_buffers(ncomp_local, ncomp_remote);
 
   auto k_local = this->d_local_contribs->ptr;
   this->sycl_target->queue
       .memcpy(k_local, input.data(), ncomp_local * sizeof(REAL))
       .wait_and_throw();
 
+  // Send the values for the points which were added on this rank but are held
+  // by a remote rank. This is the reverse of the communication in get.
+  const int num_entries = this->owning_point_indices.size();
+  std::vector<REAL> send_buffer(num_entries * ncomp);
+  for (int ix = 0; ix < num_entries; ix++) {
+    const int src_index = this->owning_point_indices.at(ix);
+    for (int cx = 0; cx < ncomp; cx++) {
+      send_buffer.at(ix * ncomp + cx) = input.at(src_index * ncomp + cx);
+    }
+  }
+  this->recv_buffer.resize(ncomp_remote);
+  this->compute_num_bytes<REAL>(ncomp);
+  this->compute_offsets<REAL>(ncomp, this->recv_buffer, send_buffer);
+  this->cec->exchange_send_recv_data(
+      this->owning_ranks, this->owning_num_bytes, this->owning_ptrs,
+      this->adding_ranks, this->adding_num_bytes, this->adding_ptrs);
+
+  auto k_remote = this->d_remote_contribs->ptr;
+  if (ncomp_remote > 0) {
+    this->sycl_target->queue
+        .memcpy(k_remote, this->recv_buffer.data(), ncomp_remote * sizeof(REAL))
+        .wait_and_throw();
+  }
+
   const int k_rank = this->rank;
   const int k_ncomp = ncomp;
   particle_loop(
@@ -368,6 +393,10 @@ void QuadraturePointMapper::set(const int ncomp, std::vector<REAL> &input) {
           for (int cx = 0; cx < k_ncomp; cx++) {
             CONTRIB.at(cx) = k_local[start + cx];
           }
+        } else {
+          for (int cx = 0; cx < k_ncomp; cx++) {
+            CONTRIB.at(cx) = k_remote[start + cx];
+          }
         }
       },
       Access::read(Sym<INT>("ADDING_RANK_INDEX")), Access::write(sym))
-- 
2.43.0


From e1d8a8e7be9dcc89c6187b2174a4f34cf8e79055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 30/45] fix: QuadraturePointMapper::get with several components
 and points held by another rank

---
 src/external_interfaces/common/quadrature_point_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index 59cdf9b..7b4d3eb 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -326,7 +326,7 @@ void QuadraturePointMapper::get(const int ncomp, std::vector<REAL> &output) {
   // Need to exchange and populate the points where the evaluation point is
   // not owned by the rank which added the point.
   auto sizes = this->compute_num_bytes<REAL>(ncomp);
-  this->recv_buffer.resize(sizes.second);
+  this->recv_buffer.resize(static_cast<std::size_t>(sizes.second) * ncomp);
   e1.wait_and_throw();
   this->compute_offsets<REAL>(ncomp, send_buffer, recv_buffer);
 
-- 
2.43.0


From 84c20180feb530d81ff451ca01db02ddbdbeb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 31/45] fix: BufferBase::realloc copies no more elements than
 the new buffer holds

---
 include/neso_particles/device_buffers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/device_buffers.hpp b/include/neso_particles/device_buffers.hpp
index 835334b..735edff 100644
--- a/include/neso_particles/device_buffers.hpp
+++ b/include/neso_particles/device_buffers.hpp
@@ -117,7 +117,7 @@ public:
       this->ptr = this->malloc_wrapper(size * sizeof(T));
       const auto old_size = this->size;
       this->size = size;
-      this->memcpy_wrapper(this->ptr, ptr_old, old_size);
+      this->memcpy_wrapper(this->ptr, ptr_old, std::min(old_size, this->size));
       this->free_wrapper(ptr_old);
     }
     return this->size;
-- 
2.43.0


From 9fe7a5d0a02c9292875cc2524dd8996878d8e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 32/45] fix: CellDat::get_nrow_min reports zero rows for a new
 CellDat

---
 include/neso_particles/containers/cell_dat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/containers/cell_dat.hpp b/include/neso_particles/containers/cell_dat.hpp
index 77c116d..92e94d8 100644
--- a/include/neso_particles/containers/cell_dat.hpp
+++ b/include/neso_particles/containers/cell_dat.hpp
@@ -379,7 +379,7 @@ public:
    */
   inline CellDat(SYCLTargetSharedPtr sycl_target, const int ncells,
                  const int ncol)
-      : nrow_max(0), sycl_target(sycl_target), ncells(ncells), ncol(ncol),
+      : nrow_max(0), nrow_min(0), sycl_target(sycl_target), ncells(ncells), ncol(ncol),
         fixed_size(false) {
     this->create(ncells, ncol);
   };
-- 
2.43.0


From 1c9ccdf2830d9df0bc5736eb3b73eafae62a40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:59 +0000
Subject: [PATCH 33/45] fix: 2D line segment intersections with segments
 aligned to an axis

---
 include/neso_particles/device_functions.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/device_functions.hpp b/include/neso_particles/device_functions.hpp
index 0d45396..da610fe 100644
--- a/include/neso_particles/device_functions.hpp
+++ b/include/neso_particles/device_functions.hpp
@@ -218,8 +218,12 @@ inline bool line_segment_intersection_2d(const REAL &xa, const REAL &ya,
     const REAL y_min = y_cond ? y0 : y1;
     const REAL y_max = y_cond ? y1 : y0;
 
-    const bool in_bounds_ab = (x_min - tol <= xi) && (xi <= x_max + tol) &&
-                              (y_min - tol <= yi) && (yi <= y_max + tol);
+    // The point is on the line which contains this segment, up to rounding, so
+    // compare along the longest extent of the segment. The other extent can be
+    // arbitrarily small, e.g. zero if the segment is aligned with an axis.
+    const bool in_bounds_ab = (x_max - x_min) > (y_max - y_min)
+                                  ? (x_min - tol <= xi) && (xi <= x_max + tol)
+                                  : (y_min - tol <= yi) && (yi <= y_max + tol);
 
     return in_bounds_01 && in_bounds_ab;
   } else {
-- 
2.43.0


From 93147be528906ee1fbe93700a931d42f3c20517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 34/45] fix: BoundaryNormalMapper::get returns false for
 boundary elements it does not hold

---
 .../boundary_interaction/boundary_interaction_2d.hpp  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp
index 39fb1ed..87179c6 100644
--- a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp
+++ b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp
@@ -43,11 +43,12 @@ struct BoundaryNormalMapper {
    * @returns True if the boundary element is found otherwise false.
    */
   inline bool get(const INT global_id, REAL **normal) const {
-    BoundaryInteractionNormalData2D *node = nullptr;
-    bool *exists;
-    const bool e = root->get_location(global_id, &exists, &node);
-    *normal = node->d_normal;
-    return e && (*exists);
+    BoundaryInteractionNormalData2D node;
+    const bool exists = (root != nullptr) && root->get(global_id, &node);
+    if (exists) {
+      *normal = node.d_normal;
+    }
+    return exists;
   }
 };
 
-- 
2.43.0


From 6b70e1dc7b00be133f16ade03be9bb2e285e0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 35/45] fix: DMPlex boundary interactions with more position
 components than mesh dimensions

---
 .../petsc/boundary_interaction/boundary_interaction_common.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
index 2e077c1..375be92 100644
--- a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
+++ b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
@@ -60,7 +60,7 @@ protected:
                                        INT *d_int) {
     if (intersect_object.boundary_elements_exist()) {
       auto particle_group = get_particle_group(particle_sub_group);
-      const auto k_ndim = particle_group->position_dat->ncomp;
+      const auto k_ndim = this->mesh->get_ndim();
 
       auto mesh_hierarchy_device_mapper =
           this->mesh_hierarchy_mapper->get_device_mapper();
-- 
2.43.0


From 565f3c0fa3a1ce709fe3a017f8a3e0ca674d618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 36/45] fix: label_all_dmplex_boundaries does not label
 interior faces of meshes with an overlap

---
 .../petsc/dmplex_utility.cpp                  | 48 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/petsc/dmplex_utility.cpp b/src/external_interfaces/petsc/dmplex_utility.cpp
index ef6a1e8..a45ba92 100644
--- a/src/external_interfaces/petsc/dmplex_utility.cpp
+++ b/src/external_interfaces/petsc/dmplex_utility.cpp
@@ -205,7 +205,53 @@ void label_all_dmplex_boundaries(DM dm, std::string label_name,
   ensure_dm_label_exists(dm, label_name);
   DMLabel label;
   PETSCCHK(DMGetLabel(dm, label_name.c_str(), &label));
-  PETSCCHK(DMPlexMarkBoundaryFaces(dm, value, label));
+
+  // DMPlexMarkBoundaryFaces also marks the outer faces of the halo cells if the
+  // DM has an overlap. A face is on the boundary of the global mesh if exactly
+  // one cell is incident to it. Each cell is counted by the rank that owns it.
+  PetscInt point_start, point_end, cell_start, cell_end, face_start, face_end;
+  PETSCCHK(DMPlexGetChart(dm, &point_start, &point_end));
+  PETSCCHK(DMPlexGetHeightStratum(dm, 0, &cell_start, &cell_end));
+  PETSCCHK(DMPlexGetHeightStratum(dm, 1, &face_start, &face_end));
+  PetscSF sf;
+  PetscInt num_roots, num_leaves;
+  const PetscInt *leaves;
+  PETSCCHK(DMGetPointSF(dm, &sf));
+  PETSCCHK(PetscSFGetGraph(sf, &num_roots, &num_leaves, &leaves, nullptr));
+
+  std::vector<PetscInt> owned(point_end, 1);
+  for (PetscInt ix = 0; ix < num_leaves; ix++) {
+    owned.at(leaves != nullptr ? leaves[ix] : ix) = 0;
+  }
+  std::vector<PetscInt> counts(point_end, 0);
+  for (PetscInt px = face_start; px < face_end; px++) {
+    PetscInt size;
+    const PetscInt *support;
+    PETSCCHK(DMPlexGetSupportSize(dm, px, &size));
+    PETSCCHK(DMPlexGetSupport(dm, px, &support));
+    for (PetscInt sx = 0; sx < size; sx++) {
+      if ((cell_start <= support[sx]) && (support[sx] < cell_end)) {
+        counts.at(px) += owned.at(support[sx]);
+      }
+    }
+  }
+  if (num_roots > -1) {
+    std::vector<PetscInt> counts_global = counts;
+    PETSCCHK(PetscSFReduceBegin(sf, MPIU_INT, counts.data(),
+                                counts_global.data(), MPI_SUM));
+    PETSCCHK(PetscSFReduceEnd(sf, MPIU_INT, counts.data(), counts_global.data(),
+                              MPI_SUM));
+    counts = counts_global;
+    PETSCCHK(PetscSFBcastBegin(sf, MPIU_INT, counts_global.data(),
+                               counts.data(), MPI_REPLACE));
+    PETSCCHK(PetscSFBcastEnd(sf, MPIU_INT, counts_global.data(), counts.data(),
+                             MPI_REPLACE));
+  }
+  for (PetscInt px = face_start; px < face_end; px++) {
+    if (counts.at(px) == 1) {
+      PETSCCHK(DMLabelSetValue(label, px, value));
+    }
+  }
   PETSCCHK(DMPlexLabelComplete(dm, label));
 }
 
-- 
2.43.0


From c7185a0b2c790332d9c6f3e856f4bfb7a518f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 37/45] fix: DMPlexMeshCouplerDG0 maps global cells to the
 local indices of the owned cells

---
 src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp b/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
index f6b9875..4d02b39 100644
--- a/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
+++ b/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
@@ -283,7 +283,10 @@ DMPlexMeshCouplerDG0::DMPlexMeshCouplerDG0(
   this->cell_count_B = dmh_B.get_cell_count();
   auto lambda_global_to_local = [&](std::vector<int> &cells) {
     std::for_each(cells.begin(), cells.end(), [&](auto &cellx) {
-      cellx = dmh_B.get_local_point_from_global_point(cellx);
+      // Owned cells are not always the first points, e.g. if there is an overlap
+      // and there are several cell types.
+      cellx = dmh_B.get_local_cell_index(
+          dmh_B.get_local_point_from_global_point(cellx));
     });
   };
 
-- 
2.43.0


From 5e344c1c23cdf784e1e235421061159196094266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:17 +0000
Subject: [PATCH 38/45] fix: VTKHDF::write aborted when there are no cells on
 any rank

---
 .../neso_particles/external_interfaces/vtk/vtk.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/neso_particles/external_interfaces/vtk/vtk.hpp b/include/neso_particles/external_interfaces/vtk/vtk.hpp
index 4f46117..0b445af 100644
--- a/include/neso_particles/external_interfaces/vtk/vtk.hpp
+++ b/include/neso_particles/external_interfaces/vtk/vtk.hpp
@@ -96,8 +96,11 @@ protected:
     H5CHK(dset = H5Dcreate2(group, name.c_str(), out_datatype, filespace,
                             H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
 
-    H5CHK(
-        H5Dwrite(dset, datatype, memspace, filespace, partition, data.data()));
+    // There is nothing to write to, and no storage for, an empty dataset.
+    if (global_size > 0) {
+      H5CHK(H5Dwrite(dset, datatype, memspace, filespace, partition,
+                     data.data()));
+    }
 
     H5CHK(H5Dclose(dset));
     H5CHK(H5Pclose(partition));
@@ -135,8 +138,11 @@ protected:
     H5CHK(dset = H5Dcreate2(group, name.c_str(), out_datatype, filespace,
                             H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
 
-    H5CHK(
-        H5Dwrite(dset, datatype, memspace, filespace, partition, data.data()));
+    // There is nothing to write to, and no storage for, an empty dataset.
+    if (global_size > 0) {
+      H5CHK(H5Dwrite(dset, datatype, memspace, filespace, partition,
+                     data.data()));
+    }
 
     H5CHK(H5Dclose(dset));
     H5CHK(H5Pclose(partition));
-- 
2.43.0


From 314f3a424ba1ae617fe555f4b841949882a57cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 39/45] fix: start the profile region of cellwise pair loops

wait() ends the region, which was never started: with profiling enabled every
such pair loop threw std::bad_optional_access.
---
 .../pair_loop/particle_pair_loop_cellwise_pair_list.hpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp b/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
index 4898dd2..bf5ad43 100644
--- a/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
+++ b/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
@@ -104,6 +104,9 @@ public:
          [[maybe_unused]] const std::optional<int> cell_end =
              std::nullopt) override {
 
+    this->profile_region = this->sycl_target->profile_map.start_region(
+        "ParticlePairLoopCellwisePairList", this->name);
+
     int max_pair_count = 0;
     INT pair_list_counts_es = 0;
     int max_wave_count = 0;
-- 
2.43.0


From 900a24cffe8c6890048de368397932be7b6fe4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 40/45] fix: end_region with a region that was not started

Enabling profiling between start_region and end_region threw
std::bad_optional_access.
---
 include/neso_particles/profiling.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/profiling.hpp b/include/neso_particles/profiling.hpp
index 54079e4..76371e2 100644
--- a/include/neso_particles/profiling.hpp
+++ b/include/neso_particles/profiling.hpp
@@ -228,7 +228,8 @@ public:
    * @param level Optional level for region, default 0.
    */
   inline void end_region(std::optional<ProfileRegion> &profile_region) {
-    if (this->enabled) {
+    // The region was not started if profiling was disabled at the time.
+    if (this->enabled && profile_region.has_value()) {
       profile_region.value().end();
       this->regions.push_back(profile_region.value());
     }
-- 
2.43.0


From 6eaaaa7563eff04c15dd27bb3c5cb90e30b9dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 41/45] fix: ProfileMap::reset kept the events

The events recorded before a reset were written with times before the new
start.
---
 include/neso_particles/profiling.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neso_particles/profiling.hpp b/include/neso_particles/profiling.hpp
index 76371e2..2c070c5 100644
--- a/include/neso_particles/profiling.hpp
+++ b/include/neso_particles/profiling.hpp
@@ -162,6 +162,7 @@ public:
    */
   inline void reset() {
     this->profile.clear();
+    this->events.clear();
     this->regions.clear();
     this->time_start = profile_timestamp();
   };
-- 
2.43.0


From 5ec5987218d76d15d216a649c2402211919afaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 42/45] fix: profile metrics of sub group loops used the size
 before it was set

The number of bytes and flops of the region was computed from the
uninitialised size of the new iteration set.
---
 .../particle_sub_group/particle_loop_sub_group.hpp             | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neso_particles/particle_sub_group/particle_loop_sub_group.hpp b/include/neso_particles/particle_sub_group/particle_loop_sub_group.hpp
index cd169a6..d70d1ee 100644
--- a/include/neso_particles/particle_sub_group/particle_loop_sub_group.hpp
+++ b/include/neso_particles/particle_sub_group/particle_loop_sub_group.hpp
@@ -115,8 +115,6 @@ protected:
       return false;
     }
 
-    this->profiling_region_metrics(this->iteration_set->iteration_set_size);
-
     // auto region_iteration_set = this->sycl_target->profile_map.start_region(
     //     this->loop_type, this->name + "iteration_set_determination"
     //);
@@ -136,6 +134,7 @@ protected:
     }
     // this->sycl_target->profile_map.end_region(region_iteration_set);
 
+    this->profiling_region_metrics(this->iteration_set->iteration_set_size);
     return true;
   }
 
-- 
2.43.0


From d4aa0ee8e51eda9a9bdf23ebc5dafa3e2ac22c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:07 +0000
Subject: [PATCH 43/45] fix: escape names in the profiling JSON file

A loop, region or event name with a quote, backslash or control character made
the file invalid JSON.
---
 include/neso_particles/profiling.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/neso_particles/profiling.hpp b/include/neso_particles/profiling.hpp
index 2c070c5..d02da40 100644
--- a/include/neso_particles/profiling.hpp
+++ b/include/neso_particles/profiling.hpp
@@ -3,6 +3,7 @@
 
 #include <chrono>
 #include <cstdint>
+#include <cstdio>
 #include <fstream>
 #include <list>
 #include <map>
@@ -86,6 +87,24 @@ struct ProfileRegion {
  */
 class ProfileMap {
 private:
+  /// Escape the characters which cannot be in a JSON string.
+  static inline std::string json_escape(const std::string &value) {
+    std::string output;
+    for (const char c : value) {
+      if (c == '"' || c == '\\') {
+        output += '\\';
+        output += c;
+      } else if (static_cast<unsigned char>(c) < 0x20) {
+        char buffer[8];
+        snprintf(buffer, 8, "\\u%04x", static_cast<unsigned int>(c));
+        output += buffer;
+      } else {
+        output += c;
+      }
+    }
+    return output;
+  }
+
 protected:
 public:
   /// Reference time for start of profiling.
@@ -260,8 +279,8 @@ public:
     fh << "\"events\":" << "[\n";
     int ei = 0;
     for (const auto &ex : this->events) {
-      const auto e0 = std::get<0>(ex);
-      const auto e1 = std::get<1>(ex);
+      const auto e0 = json_escape(std::get<0>(ex));
+      const auto e1 = json_escape(std::get<1>(ex));
       const auto e2 = profile_elapsed(this->time_start, std::get<2>(ex));
       fh << "[\"" << e0 << "\",\"" << e1 << "\"," << e2 << "]";
       ei++;
@@ -273,8 +292,8 @@ public:
     const int num_regions = this->regions.size();
     int ri = 0;
     for (const auto &rx : this->regions) {
-      const auto e0 = rx.key1;
-      const auto e1 = rx.key2;
+      const auto e0 = json_escape(rx.key1);
+      const auto e1 = json_escape(rx.key2);
       const auto e2 = profile_elapsed(this->time_start, rx.time_start);
       const auto e3 = profile_elapsed(this->time_start, rx.time_end);
       const auto e4 = rx.level;
-- 
2.43.0


From a035d6dcfad2f1a91d00cf54585f51b186b205d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:07 +0000
Subject: [PATCH 44/45] fix: environment variables that are not numbers use the
 default

std::stoi also throws std::invalid_argument, which escaped get_env_size_t
instead of the documented fall back to the default value.
---
 include/neso_particles/typedefs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/typedefs.hpp b/include/neso_particles/typedefs.hpp
index 2450043..d3b1413 100644
--- a/include/neso_particles/typedefs.hpp
+++ b/include/neso_particles/typedefs.hpp
@@ -369,7 +369,7 @@ inline std::size_t get_env_size_t(const std::string key,
     try {
       std::size_t value = static_cast<std::size_t>(std::stoi(var_char));
       return value;
-    } catch (std::out_of_range const &ex) {
+    } catch (std::logic_error const &ex) {
       nprint("Could not read", key,
              "and convert to int. Value of environment variable is:", var_char,
              "Will return the default value of:", default_value);
-- 
2.43.0


From 0927a9f714ce25fb795226d64e9441a8a2184dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:37 +0000
Subject: [PATCH 45/45] fix: iteration set size counted the bulk of the
 particles twice

The peel loops added the full occupancy of each cell to the size which already
included the particles of the main block. The profile regions of loops
therefore reported up to twice the number of bytes and flops.
---
 src/loop/particle_loop_iteration_set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/loop/particle_loop_iteration_set.cpp b/src/loop/particle_loop_iteration_set.cpp
index b616f14..2d1e45b 100644
--- a/src/loop/particle_loop_iteration_set.cpp
+++ b/src/loop/particle_loop_iteration_set.cpp
@@ -196,7 +196,8 @@ std::vector<ParticleLoopBlockHost> &ParticleLoopBlockIterationSet::get_generic(
     for (std::size_t cellx = start; cellx < end; cellx++) {
       const std::size_t npart =
           static_cast<std::size_t>(this->h_npart_cell[cellx]);
-      this->iteration_set_size += npart;
+      // The first min_occupancy particles are already counted.
+      this->iteration_set_size += npart - min_occupancy;
       cell_max_occ = std::max(cell_max_occ, npart);
     }
     // Subtract of the block already completed as this is a peel loop.
-- 
2.43.0

