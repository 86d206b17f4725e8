From 53fe6d47494f0450c28c7b20ccad854a46a74905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 01/62] verification hook: loop schedules and real atomics
 under OMEGA_H_VP_HOOKS

---
 src/Omega_h_atomics.hpp |  8 ++++++--
 src/Omega_h_for.hpp     | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_atomics.hpp b/src/Omega_h_atomics.hpp
index 7a38016..9c68688 100644
--- a/src/Omega_h_atomics.hpp
+++ b/src/Omega_h_atomics.hpp
@@ -29,6 +29,8 @@ OMEGA_H_DEVICE int atomic_fetch_add(int* const dest, const int val) {
   return oldval;
 #elif defined(OMEGA_H_USE_CUDA) && defined(__CUDA_ARCH__)
   return atomicAdd(dest, val);
+#elif defined(OMEGA_H_VP_HOOKS)
+  return __atomic_fetch_add(dest, val, __ATOMIC_RELAXED);
 #else
   int oldval = *dest;
   *dest += val;
@@ -37,7 +39,8 @@ OMEGA_H_DEVICE int atomic_fetch_add(int* const dest, const int val) {
 }
 
 OMEGA_H_DEVICE void atomic_increment(int* const dest) {
-#if defined(OMEGA_H_USE_OPENMP) || defined(OMEGA_H_USE_CUDA)
+#if defined(OMEGA_H_USE_OPENMP) || defined(OMEGA_H_USE_CUDA) ||                \
+    defined(OMEGA_H_VP_HOOKS)
   atomic_fetch_add(dest, 1);
 #else
   ++(*dest);
@@ -45,7 +48,8 @@ OMEGA_H_DEVICE void atomic_increment(int* const dest) {
 }
 
 OMEGA_H_DEVICE void atomic_add(int* const dest, const int val) {
-#if defined(OMEGA_H_USE_OPENMP) || defined(OMEGA_H_USE_CUDA)
+#if defined(OMEGA_H_USE_OPENMP) || defined(OMEGA_H_USE_CUDA) ||                \
+    defined(OMEGA_H_VP_HOOKS)
   atomic_fetch_add(dest, val);
 #else
   *dest += val;
diff --git a/src/Omega_h_for.hpp b/src/Omega_h_for.hpp
index c7cfc52..85f98d5 100644
--- a/src/Omega_h_for.hpp
+++ b/src/Omega_h_for.hpp
@@ -13,6 +13,14 @@
 
 namespace Omega_h {
 
+#if defined(OMEGA_H_VP_HOOKS)
+// verification hook: runs the n iterations of a parallel loop in an order, or
+// on threads, chosen by the verification harness, which provides this function
+namespace vp_hooks {
+void run(int n, void (*call)(void*, int), void* arg);
+}
+#endif
+
 #if defined(OMEGA_H_USE_CUDA)
 
 namespace details {
@@ -71,6 +79,12 @@ void for_each(InputIterator first, InputIterator last, UnaryFunction&& f) {
   for (LO i = 0; i < n; ++i) {
     f2(first[i]);
   }
+#elif defined(OMEGA_H_VP_HOOKS)
+  auto call_one = [&](LO i) { f2(first[i]); };
+  using CallOne = decltype(call_one);
+  vp_hooks::run(
+      LO(last - first),
+      [](void* arg, LO i) { (*static_cast<CallOne*>(arg))(i); }, &call_one);
 #else
   for (; first != last; ++first) {
     f2(*first);
-- 
2.43.0


From b0551572e4eff07f29ee1ceaa583e01e9940c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 02/62] fix: count the sides of an element from its family when
 building the dual graph

ask_dual on quadrilateral and hexahedral meshes assumed dim+1 sides per
element, so it aborted or listed wrong neighbours.
---
 src/Omega_h_adj.cpp      | 3 +--
 src/Omega_h_adj.hpp      | 2 +-
 src/Omega_h_conserve.cpp | 3 ++-
 src/Omega_h_mesh.cpp     | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Omega_h_adj.cpp b/src/Omega_h_adj.cpp
index 8b03448..d4c243d 100644
--- a/src/Omega_h_adj.cpp
+++ b/src/Omega_h_adj.cpp
@@ -619,13 +619,12 @@ class elements_across_sides_count_functor {
   };
 };
 
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
+Graph elements_across_sides(Int const nsides_per_elem, Adj const elems2sides,
     Adj const sides2elems, Read<I8> const side_is_exposed) {
   OMEGA_H_TIME_FUNCTION;
   auto const elem_side2side = elems2sides.ab2b;
   auto const side2side_elems = sides2elems.a2ab;
   auto const side_elem2elem = sides2elems.ab2b;
-  Int const nsides_per_elem = dim + 1;
   auto const nelems =
       divide_no_remainder(elem_side2side.size(), nsides_per_elem);
   Write<LO> degrees(nelems);
diff --git a/src/Omega_h_adj.hpp b/src/Omega_h_adj.hpp
index 61dbd0b..4b4ad5d 100644
--- a/src/Omega_h_adj.hpp
+++ b/src/Omega_h_adj.hpp
@@ -95,7 +95,7 @@ Adj transit(Adj const h2m, Adj const m2l, Omega_h_Family const family,
 Graph verts_across_edges(Adj const e2v, Adj const v2e);
 Graph edges_across_tris(Adj const f2e, Adj const e2f);
 Graph edges_across_tets(Adj const r2e, Adj const e2r);
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
+Graph elements_across_sides(Int const nsides_per_elem, Adj const elems2sides,
     Adj const sides2elems, Read<I8> const side_is_exposed);
 
 template <Int nhhl>
diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index e80d89a..4555886 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -630,7 +630,8 @@ static Graph get_elem_diffusion_graph(Mesh* mesh) {
   }
   auto elems2sides = mesh->ask_down(dim, dim - 1);
   auto sides2elems = mesh->ask_up(dim - 1, dim);
-  return elements_across_sides(dim, elems2sides, sides2elems, sides_are_bdry);
+  return elements_across_sides(
+      dim + 1, elems2sides, sides2elems, sides_are_bdry);
 }
 
 Reals diffuse_densities_once(
diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 100971d..4222656 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -322,8 +322,8 @@ Adj Mesh::derive_adj(Int from, Int to) {
     return h2l;
   } else {
     if (from == dim() && to == dim()) {
-      return elements_across_sides(dim(), ask_adj(dim(), dim() - 1),
-          ask_adj(dim() - 1, dim()), mark_exposed_sides(this));
+      return elements_across_sides(element_degree(family(), dim(), dim() - 1),
+          ask_adj(dim(), dim() - 1), ask_adj(dim() - 1, dim()), mark_exposed_sides(this));
     }
     if (from == VERT && to == VERT) {
       return verts_across_edges(ask_adj(EDGE, VERT), ask_adj(VERT, EDGE));
-- 
2.43.0


From 83ffd9ce1fb8cb1453590db403fc399560468c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 03/62] fix: let ranks without any entities take part in
 adaptation

---
 src/Omega_h_array_ops.cpp |  6 +++++-
 src/Omega_h_conserve.cpp  | 19 ++++++++-----------
 src/Omega_h_mesh.cpp      |  6 +++++-
 src/Omega_h_metric.cpp    |  2 ++
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index b11356b..340ca6e 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -127,8 +127,12 @@ Read<T> multiply_each_by(Read<T> a, T b) {
 
 template <typename T>
 Write<T> divide_each(Read<T> a, Read<T> b, std::string const& name) {
-  auto width = divide_no_remainder(a.size(), b.size());
   Write<T> c(a.size(), name);
+  if (b.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), b.size());
   auto f = OMEGA_H_LAMBDA(LO i) {
     for (Int j = 0; j < width; ++j) {
       c[i * width + j] = a[i * width + j] / b[i];
diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index 4555886..2d4fd72 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -210,10 +210,8 @@ static void carry_class_bdry_integ_error(Mesh* old_mesh, Mesh* new_mesh,
    of error being introduced, compares the old and new integrals
    and adds the relevant error to the element error array */
 static void introduce_class_integ_error(Mesh* old_mesh, Mesh* new_mesh,
-    Cavs class_cavs, Reals old_elem_densities, Reals new_elem_densities,
-    Write<Real> new_elem_errors_w) {
-  auto ncomps =
-      divide_no_remainder(old_elem_densities.size(), old_mesh->nelems());
+    Cavs class_cavs, Int ncomps, Reals old_elem_densities,
+    Reals new_elem_densities, Write<Real> new_elem_errors_w) {
   auto keys2new_elems = class_cavs.keys2new_elems;
   auto keys2old_elems = class_cavs.keys2old_elems;
   auto old_elem_sizes = old_mesh->ask_sizes();
@@ -264,7 +262,7 @@ static void transfer_integ_error(Mesh* old_mesh, Mesh* new_mesh,
   for (std::size_t i = 0; i < 3; ++i) {
     if (!conserved_bools.this_time[i]) {
       for (auto class_cavs : cavs[i][CLASS_COLOR]) {
-        introduce_class_integ_error(old_mesh, new_mesh, class_cavs,
+        introduce_class_integ_error(old_mesh, new_mesh, class_cavs, ncomps,
             old_elem_densities, new_elem_densities, new_elem_errors_w);
       }
     }
@@ -685,11 +683,10 @@ static Reals diffuse_densities(Mesh* mesh, Graph g, Reals densities,
   return densities;
 }
 
-static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g,
+static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g, Int ncomps,
     Reals error_integrals, Reals quantity_integrals, VarCompareOpts opts,
     std::string const& name, bool verbose) {
   if (opts.type == VarCompareOpts::NONE) return error_integrals;
-  auto ncomps = divide_no_remainder(error_integrals.size(), g.nnodes());
   if (ncomps > 1) {
     Write<Real> out(error_integrals.size());
     for (Int c = 0; c < ncomps; ++c) {
@@ -697,7 +694,7 @@ static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g,
       auto comp_quantity_integrals =
           get_component(quantity_integrals, ncomps, c);
       auto comp_name = name + "_" + std::to_string(c);
-      comp_integrals = diffuse_integrals_weighted(mesh, g, comp_integrals,
+      comp_integrals = diffuse_integrals_weighted(mesh, g, 1, comp_integrals,
           comp_quantity_integrals, opts, comp_name, verbose);
       set_component(out, comp_integrals, ncomps, c);
     }
@@ -726,7 +723,7 @@ static void correct_density_error(Mesh* mesh, TransferOpts const& xfer_opts,
   Reals old_integrals = multiply_each(old_densities, sizes);
   auto errors = mesh->get_array<Real>(dim, error_name);
   auto diffuse_tol = xfer_opts.integral_diffuse_map.find(integral_name)->second;
-  errors = diffuse_integrals_weighted(mesh, diffusion_graph, errors,
+  errors = diffuse_integrals_weighted(mesh, diffusion_graph, ncomps, errors,
       old_integrals, diffuse_tol, error_name, verbose);
   mesh->set_tag(dim, error_name, errors);
   auto new_integrals = subtract_each(old_integrals, errors);
@@ -765,8 +762,8 @@ void correct_momentum_error(Mesh* mesh, TransferOpts const& xfer_opts,
   auto elem_errors = mesh->get_array<Real>(dim, error_name);
   elem_errors = add_each(elem_errors, elem_errors_from_density);
   auto diffuse_tol = xfer_opts.integral_diffuse_map.find(momentum_name)->second;
-  elem_errors = diffuse_integrals_weighted(mesh, diffusion_graph, elem_errors,
-      new_elem_momenta, diffuse_tol, error_name, verbose);
+  elem_errors = diffuse_integrals_weighted(mesh, diffusion_graph, ncomps,
+      elem_errors, new_elem_momenta, diffuse_tol, error_name, verbose);
   mesh->set_tag(dim, error_name, elem_errors);
   auto out = deep_copy(vert_velocities);
   auto f = OMEGA_H_LAMBDA(LO v) {
diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 4222656..19d0333 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -161,7 +161,11 @@ void Mesh::add_tag(Int ent_dim, std::string const& name, Int ncomps,
 template <typename T>
 void Mesh::set_tag(
     Int ent_dim, std::string const& name, Read<T> array, bool internal) {
-  this->add_tag(ent_dim, name, divide_no_remainder(array.size(), nents(ent_dim)), array, internal);
+  /* a rank without entities cannot tell the width from the array */
+  auto const ncomps = (nents(ent_dim) == 0 && has_tag(ent_dim, name))
+                          ? get_tagbase(ent_dim, name)->ncomps()
+                          : divide_no_remainder(array.size(), nents(ent_dim));
+  this->add_tag(ent_dim, name, ncomps, array, internal);
 }
 
 void Mesh::react_to_set_tag(Int ent_dim, std::string const& name) {
diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index 7c5573d..98ee8d0 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -23,6 +23,8 @@ Int get_metric_dim(Int ncomps) {
 }
 
 Int get_metrics_dim(LO nmetrics, Reals metrics) {
+  // a rank may hold no metrics at all, in which case any dimension will do
+  if (nmetrics == 0) return 1;
   auto ncomps = divide_no_remainder(metrics.size(), nmetrics);
   return get_metric_dim(ncomps);
 }
-- 
2.43.0


From af3a84fad877e1028b8b2dce8f34aec1d22d0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 04/62] fix: compute flip-prevention normals on owned vertices
 only

---
 src/Omega_h_coarsen_flip.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_coarsen_flip.cpp b/src/Omega_h_coarsen_flip.cpp
index 9be0c9e..2d6de96 100644
--- a/src/Omega_h_coarsen_flip.cpp
+++ b/src/Omega_h_coarsen_flip.cpp
@@ -19,7 +19,11 @@ Reals compute_flip_normals_dim(Mesh* mesh, Bytes sides_are_exposed,
   constexpr auto side_dim = dim - 1;
   auto v2s = mesh->ask_up(VERT, side_dim);
   auto sv2v = mesh->ask_verts_of(side_dim);
-  auto verts_that_matter = collect_marked(verts_matter);
+  // only owned vertices are sure to have all their sides on this rank:
+  // at the edge of the ghost layer interior sides would look exposed.
+  // the others get their normal from the owner below.
+  auto verts_that_matter =
+      collect_marked(land_each(verts_matter, mesh->owned(VERT)));
   auto coords = mesh->coords();
   auto out = Write<Real>(mesh->nverts() * dim, 0.0);
   auto const threshold_copy = simple_algorithm_threshold;
-- 
2.43.0


From e13ba86365179c02ba72f34b7dad74ac08a9e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 05/62] fix: transfer pointwise fields in 1D coarsening

---
 src/Omega_h_transfer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Omega_h_transfer.cpp b/src/Omega_h_transfer.cpp
index 9aa7595..5d89ed0 100644
--- a/src/Omega_h_transfer.cpp
+++ b/src/Omega_h_transfer.cpp
@@ -577,6 +577,10 @@ void transfer_pointwise(Mesh* old_mesh, TransferOpts const& opts,
         transfer_pointwise_tmpl<2>(old_mesh, new_mesh, key_dim, keys2kds,
             keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
             tagbase);
+      } else if (dim == 1) {
+        transfer_pointwise_tmpl<1>(old_mesh, new_mesh, key_dim, keys2kds,
+            keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
+            tagbase);
       }
     }
   }
-- 
2.43.0


From 202450491d6d7dbdcd3664827d2978378072399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 06/62] fix: reject truncated native mesh files

---
 src/Omega_h_file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 2febe4b..03234a6 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -112,6 +112,7 @@ void write_value(std::ostream& stream, T val, bool needs_swapping) {
 template <typename T>
 void read_value(std::istream& stream, T& val, bool needs_swapping) {
   stream.read(reinterpret_cast<char*>(&val), sizeof(T));
+  if (!stream) Omega_h_fail("binary::read: unexpected end of file\n");
   if (needs_swapping) swap_bytes(val);
 }
 
@@ -163,6 +164,7 @@ void read_array(std::istream& stream, Read<T>& array, bool is_compressed,
     OMEGA_H_CHECK(compressed_bytes >= 0);
     auto compressed = new ::Bytef[compressed_bytes];
     stream.read(reinterpret_cast<char*>(compressed), compressed_bytes);
+    if (!stream) Omega_h_fail("binary::read: unexpected end of file\n");
     uLong dest_bytes = static_cast<uLong>(uncompressed_bytes);
     uLong source_bytes = static_cast<uLong>(compressed_bytes);
     ::Bytef* uncompressed_ptr =
@@ -179,6 +181,7 @@ void read_array(std::istream& stream, Read<T>& array, bool is_compressed,
   {
     stream.read(reinterpret_cast<char*>(nonnull(uncompressed.data())),
         uncompressed_bytes);
+    if (!stream) Omega_h_fail("binary::read: unexpected end of file\n");
   }
   array = swap_bytes(Read<T>(uncompressed.write()), needs_swapping);
 }
@@ -195,6 +198,7 @@ void read(std::istream& stream, std::string& val, bool needs_swapping) {
   OMEGA_H_CHECK(len >= 0);
   val.resize(static_cast<std::size_t>(len));
   stream.read(&val[0], len);
+  if (!stream) Omega_h_fail("binary::read: unexpected end of file\n");
 }
 
 static void write_meta(
@@ -410,6 +414,7 @@ void read(std::istream& stream, Mesh* mesh, I32 version) {
   ScopedTimer timer("binary::read(istream, mesh, version)");
   unsigned char magic_in[2];
   stream.read(reinterpret_cast<char*>(magic_in), sizeof(magic));
+  OMEGA_H_CHECK(bool(stream));
   OMEGA_H_CHECK(magic_in[0] == magic[0]);
   OMEGA_H_CHECK(magic_in[1] == magic[1]);
   bool needs_swapping = !is_little_endian_cpu();
@@ -494,6 +499,7 @@ I32 read_nparts(filesystem::path const& path, CommPtr comm) {
     }
   }
   comm->bcast(nparts);
+  OMEGA_H_CHECK(nparts >= 1);
   return nparts;
 }
 
-- 
2.43.0


From f7d0385705280945b546bbfb25c5c0afcf19da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 07/62] fix: report failed mesh file writes

---
 src/Omega_h_file.cpp |  7 +++++++
 src/Omega_h_gmsh.cpp |  3 +++
 src/Omega_h_vtk.cpp  | 10 ++++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 03234a6..997918a 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -474,6 +474,8 @@ static void write_int_file(
     std::ofstream file(filepath.c_str());
     OMEGA_H_CHECK(file.is_open());
     file << value << '\n';
+    file.close();
+    if (!file) Omega_h_fail("could not write file \"%s\"\n", filepath.c_str());
   }
 }
 
@@ -536,6 +538,8 @@ void write(filesystem::path const& path, Mesh* mesh) {
   std::ofstream file(filepath.c_str());
   OMEGA_H_CHECK(file.is_open());
   write(file, mesh);
+  file.close();
+  if (!file) Omega_h_fail("could not write file \"%s\"\n", filepath.c_str());
   write_nparts(path, mesh);
   write_version(path, mesh);
   mesh->comm()->barrier();
@@ -616,7 +620,10 @@ template void swap_bytes(std::uint64_t&);
 
 void write_reals_txt(filesystem::path const& filename, Reals a, Int ncomps) {
   std::ofstream stream(filename.c_str());
+  OMEGA_H_CHECK(stream.is_open());
   write_reals_txt(stream, a, ncomps);
+  stream.close();
+  if (!stream) Omega_h_fail("could not write file \"%s\"\n", filename.c_str());
 }
 
 void write_reals_txt(std::ostream& stream, Reals a, Int ncomps) {
diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 74191c1..b701b6b 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -766,7 +766,10 @@ void write(std::ostream& stream, Mesh* mesh) {
 
 void write(filesystem::path const& filepath, Mesh* mesh) {
   std::ofstream stream(filepath.c_str());
+  OMEGA_H_CHECK(stream.is_open());
   gmsh::write(stream, mesh);
+  stream.close();
+  if (!stream) Omega_h_fail("could not write file \"%s\"\n", filepath.c_str());
 }
 
 #ifdef OMEGA_H_USE_GMSH
diff --git a/src/Omega_h_vtk.cpp b/src/Omega_h_vtk.cpp
index 481084b..607bc29 100644
--- a/src/Omega_h_vtk.cpp
+++ b/src/Omega_h_vtk.cpp
@@ -721,12 +721,19 @@ void read_vtu_ents(std::istream& stream, Mesh* mesh) {
   OMEGA_H_CHECK(tag10.elem_name == "VTKFile");
 }
 
+template <typename Stream>
+static void close_written(Stream& file, filesystem::path const& path) {
+  file.close();
+  if (!file) Omega_h_fail("could not write file \"%s\"\n", path.c_str());
+}
+
 void write_vtu(filesystem::path const& filename, Mesh* mesh, Int cell_dim,
     TagSet const& tags, bool compress) {
   std::ofstream file(filename.c_str());
   OMEGA_H_CHECK(file.is_open());
   ask_for_mesh_tags(mesh, tags);
   write_vtu(file, mesh, cell_dim, tags, compress);
+  close_written(file, filename);
 }
 
 void write_vtu(
@@ -812,6 +819,7 @@ void write_pvtu(filesystem::path const& filename, Mesh* mesh, Int cell_dim,
   std::ofstream file(filename.c_str());
   OMEGA_H_CHECK(file.is_open());
   write_pvtu(file, mesh, cell_dim, piecepath, tags);
+  close_written(file, filename);
 }
 
 void read_pvtu(std::istream& stream, CommPtr comm, I32* npieces_out,
@@ -949,6 +957,7 @@ std::streampos write_initial_pvd(
   file << content;
   auto pos = file.tellp();
   file << pvd_epilogue;
+  close_written(file, pvdpath);
   return pos;
 }
 
@@ -967,6 +976,7 @@ void update_pvd(filesystem::path const& root_path, std::streampos* pos_inout,
   *pos_inout = file.tellp();
   file << "</Collection>\n";
   file << "</VTKFile>\n";
+  close_written(file, pvdpath);
 }
 
 void read_pvd(std::istream& stream, std::vector<Real>* times_out,
-- 
2.43.0


From fb8f16727303129a8d77b8e7dfb36b779b24dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 08/62] fix: check text lengths when decoding base64 and text
 arrays

---
 src/Omega_h_base64.cpp | 3 ++-
 src/Omega_h_file.cpp   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_base64.cpp b/src/Omega_h_base64.cpp
index 61d210d..ce89081 100644
--- a/src/Omega_h_base64.cpp
+++ b/src/Omega_h_base64.cpp
@@ -71,7 +71,7 @@ unsigned char UC(T val) {
 void decode_4(char const* in, unsigned char* out, std::size_t nout = 3) {
   unsigned char val[4];
   for (unsigned i = 0; i < 4; ++i) {
-    val[i] = char_to_value[U(in[i])];
+    val[i] = char_to_value[static_cast<unsigned char>(in[i])];
     OMEGA_H_CHECK(val[i] < 64);
   }
   /* cast it all !
@@ -121,6 +121,7 @@ std::string encode(void const* data, std::size_t size) {
 }
 
 void decode(std::string const& text, void* data, std::size_t size) {
+  OMEGA_H_CHECK(text.length() >= encoded_size(size));
   std::size_t quot = size / 3;
   std::size_t rem = size % 3;
   unsigned char* out = static_cast<unsigned char*>(data);
diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 997918a..51406eb 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -649,6 +649,7 @@ Reals read_reals_txt(std::istream& stream, LO n, Int ncomps) {
   for (LO i = 0; i < n; ++i) {
     for (Int j = 0; j < ncomps; ++j) {
       stream >> h_a[i * ncomps + j];
+      if (!stream) Omega_h_fail("read_reals_txt: could not read a value\n");
     }
   }
   return h_a.write();
-- 
2.43.0


From 69cc191f595d772d7472eeba193013bc2f5e1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 09/62] fix: read all nodes of quads and hexes from ASCII Gmsh
 2 files

---
 src/Omega_h_gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index b701b6b..e964e32 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -451,7 +451,7 @@ void read_internal(std::istream& stream, Mesh* mesh) {
         for (Int j = 2; j < ntags; ++j) {
           stream >> tag;
         }
-        Int neev = dim + 1;
+        Int neev = element_degree(type_family(type), dim, 0);
         LO node_number;
         for (Int j = 0; j < neev; ++j) {
           stream >> node_number;
-- 
2.43.0


From f4295960aaf569461bf1a056644b4e94ed2dd0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 10/62] fix: report tags of different type as a mesh difference

---
 src/Omega_h_compare.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 01caaef..e39afdf 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -232,6 +232,15 @@ Omega_h_Comparison compare_meshes(
         continue;
       }
       auto ncomps = tag->ncomps();
+      auto b_tag = b->get_tagbase(dim, name);
+      if (b_tag->type() != tag->type() || b_tag->ncomps() != ncomps) {
+        if (should_print) {
+          std::cout << topological_singular_name(a->family(), dim) << " tag \""
+                    << name << "\" has different types or component counts\n";
+        }
+        result = OMEGA_H_DIFF;
+        continue;
+      }
       auto tag_opts = opts.tag_opts(dim, name);
       bool ok = false;
       switch (tag->type()) {
-- 
2.43.0


From fe2364cb5a1b4d144e0391820fe504e4dfa2159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 11/62] fix: do not index out of bounds when reporting NaN
 differences

---
 src/Omega_h_compare.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index e39afdf..1ea46b3 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -131,7 +131,7 @@ struct CompareArrays<Real> {
     I32 rank_cand = ArithTraits<I32>::max();
     if (max_diff == global_max_diff) rank_cand = comm->rank();
     auto best_rank = comm->allreduce(rank_cand, OMEGA_H_MIN);
-    if (comm->rank() == best_rank) {
+    if (comm->rank() == best_rank && max_i >= 0) {
       auto global_max_i = global_start + max_i;
       auto ent_global = global_max_i / ncomps;
       auto comp = global_max_i % ncomps;
-- 
2.43.0


From c39bcf0e12aae32ed3fc6235cb03f462d19272d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 12/62] fix: carry integral errors through interior cavities

Errors introduced where boundary vertices collapse are spread over whole
cavities afterwards, so elements that do not touch the boundary can hold
them. Interior cavities dropped them and the integral was not conserved.
---
 src/Omega_h_conserve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index 2d4fd72..3390619 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -326,7 +326,9 @@ static void transfer_momentum_error(Mesh* old_mesh, TransferOpts const& opts,
 
 struct OpConservation {
   OpConservation() {
-    density.always[NOT_BDRY] = true;
+    /* error created at the boundary can have been carried into elements that
+       do not touch it, so interior cavities have to carry it along too */
+    density.always[NOT_BDRY] = false;
     density.always[TOUCH_BDRY] = false;
     density.always[KEY_BDRY] = false;
     momentum.always[NOT_BDRY] = false;
-- 
2.43.0


From c5ca2f8d0b70460aa224bc768a301e7007af6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 13/62] fix: read classification of hypercube meshes from Gmsh
 files

---
 src/Omega_h_class.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_class.cpp b/src/Omega_h_class.cpp
index 969d7a8..fdc3482 100644
--- a/src/Omega_h_class.cpp
+++ b/src/Omega_h_class.cpp
@@ -1,6 +1,7 @@
 #include "Omega_h_class.hpp"
 
 #include "Omega_h_array_ops.hpp"
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mark.hpp"
@@ -181,7 +182,8 @@ void classify_equal_order(
     find_matches(mesh->family(), ent_dim, eqv2v, ev2v, v2e, &eq2e_w, &codes);
     eq2e = eq2e_w;
   }
-  auto neq = eqv2v.size() / (ent_dim + 1);
+  auto neq = divide_no_remainder(
+      eqv2v.size(), element_degree(mesh->family(), ent_dim, VERT));
   auto eq_class_dim = Read<I8>(neq, I8(ent_dim));
   auto class_dim =
       map_onto(eq_class_dim, eq2e, mesh->nents(ent_dim), I8(mesh->dim()), 1);
-- 
2.43.0


From 7a328654c0138792ce0223699d8768fec4a5858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 14/62] fix: read Gmsh physical groups of curves, with spaces
 in names or without names

---
 src/Omega_h_gmsh.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index e964e32..851a036 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -143,6 +143,14 @@ static void read(
   }
 }
 
+static std::string get_physical_name(
+    std::vector<std::string> const& physical_names, Int physical) {
+  if (physical <= static_cast<Int>(physical_names.size())) {
+    return physical_names[static_cast<std::size_t>(physical - 1)];
+  }
+  return std::to_string(physical);
+}
+
 static void read_internal_entities_section(Mesh& mesh, Real format,
     std::vector<std::string>& physical_names, std::istream& stream,
     bool is_binary, bool needs_swapping) {
@@ -171,13 +179,13 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
       read(stream, physical, is_binary, needs_swapping);
       OMEGA_H_CHECK(physical != 0);
       if (physical > 0) {
-        const auto& physicalname = physical_names[physical - 1];
+        const auto physicalname = get_physical_name(physical_names, physical);
         mesh.class_sets[physicalname].emplace_back(0, tag);
       }
     }
   }
   const std::vector<std::pair<Int, Int>> params{
-      {num_curves, 2}, {num_surfaces, 2}, {num_volumes, 3}};
+      {num_curves, 1}, {num_surfaces, 2}, {num_volumes, 3}};
   for (auto param : params) {
     auto num_elements = param.first;
     const auto dim = param.second;
@@ -198,7 +206,8 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
         read(stream, physical, is_binary, needs_swapping);
         OMEGA_H_CHECK(physical != 0);
         if (physical > 0) {
-          const auto& physical_name = physical_names[physical - 1];
+          const auto physical_name =
+              get_physical_name(physical_names, physical);
           mesh.class_sets[physical_name].emplace_back(dim, tag);
         }
       }
@@ -243,9 +252,13 @@ void read_internal(std::istream& stream, Mesh* mesh) {
       read(stream, dim, is_binary, needs_swapping);
       read(stream, number, is_binary, needs_swapping);
       OMEGA_H_CHECK(number == i + 1);
+      // names are quoted and may contain spaces
       std::string name;
-      stream >> name;
-      physical_names.push_back(name.substr(1, name.size() - 2));
+      std::getline(stream, name);
+      auto const first = name.find('"');
+      auto const last = name.rfind('"');
+      OMEGA_H_CHECK(last != std::string::npos && first < last);
+      physical_names.push_back(name.substr(first + 1, last - first - 1));
     }
   }
   if (seek_optional_section(stream, "$Entities")) {
-- 
2.43.0


From 8c35c67230097379486497e641a0c0e4b5fae5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 15/62] fix: write the vertices of Gmsh point elements

---
 src/Omega_h_gmsh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 851a036..87b9f84 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -756,7 +756,9 @@ void write(std::ostream& stream, Mesh* mesh) {
     auto nents = mesh->nents(ent_dim);
     auto d_class_ids = mesh->get_array<ClassId>(ent_dim, "class_id");
     auto d_class_dims = mesh->get_array<Byte>(ent_dim, "class_dim");
-    auto d_ents2verts = mesh->ask_verts_of(ent_dim);
+    // adjacency from vertices to vertices means the vertex star
+    auto d_ents2verts = (ent_dim == VERT) ? LOs(nents, 0, 1)
+                                          : mesh->ask_verts_of(ent_dim);
     auto h_class_ids = HostRead<ClassId>(d_class_ids);
     auto h_class_dims = HostRead<Byte>(d_class_dims);
     auto h_ents2verts = HostRead<LO>(d_ents2verts);
-- 
2.43.0


From 3afcd83cae6cbd643b258a5fb9074b41786f694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 16/62] fix: find Gmsh sections that follow a section not read

---
 src/Omega_h_gmsh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 87b9f84..43a5d0e 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -116,8 +116,9 @@ static bool seek_optional_section(
       found = true;
       break;
     }
-    if (!line.empty() && line.rfind("$End") != 0 && line[0] == '$') {
-      // found the beginning of a new section that is not the one expected
+    if (line == "$Nodes") {
+      // optional sections come before the nodes, other sections (comments,
+      // for example) may come before them
       break;
     }
   }
-- 
2.43.0


From 6ba7c267a01f7e7653f5e5fd1781f345b89de0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 17/62] fix: tell ranks that receive an empty mesh part the
 number of ghost layers

---
 src/Omega_h_bcast.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_bcast.cpp b/src/Omega_h_bcast.cpp
index d74040a..9ee0ebc 100644
--- a/src/Omega_h_bcast.cpp
+++ b/src/Omega_h_bcast.cpp
@@ -19,7 +19,12 @@ void bcast_mesh(Mesh* mesh, CommPtr new_comm, bool is_source) {
   I32 parting;
   if (is_source) parting = mesh->parting();
   new_comm->bcast(parting);
-  if (!is_source) mesh->set_parting(Omega_h_Parting(parting));
+  I32 nghost_layers;
+  if (is_source) nghost_layers = mesh->nghost_layers();
+  new_comm->bcast(nghost_layers);
+  if (!is_source) {
+    mesh->set_parting(Omega_h_Parting(parting), nghost_layers, false);
+  }
   if (!is_source) mesh->set_verts(0);
   for (Int d = 0; d <= dim; ++d) {
     if (d > VERT && !is_source) {
-- 
2.43.0


From 26d4fff2459d8372d82e7e4a93b35595e87d91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 18/62] fix: report an asynchronous exchange as completed only
 once it is

---
 src/Omega_h_future.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_future.cpp b/src/Omega_h_future.cpp
index 32aa2a7..b967f1f 100644
--- a/src/Omega_h_future.cpp
+++ b/src/Omega_h_future.cpp
@@ -49,10 +49,10 @@ bool Future<T>::completed() {
   OMEGA_H_CHECK(
       MPI_SUCCESS == MPI_Testall(static_cast<int>(requests_.size()),
                          requests_.data(), &flag, MPI_STATUSES_IGNORE));
-  if (flag == 0) {
+  if (flag != 0) {
     status_ = Status::completed;
   }
-  return flag == 0;
+  return flag != 0;
 #else   // !OMEGA_H_USE_MPI
   return true;
 #endif  // OMEGA_H_USE_MPI
-- 
2.43.0


From f628d73adde555e710f10885b1b9d3dc9ac20b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 19/62] fix: keep the permutation an asynchronous exchange
 needs in its future

---
 src/Omega_h_dist.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_dist.cpp b/src/Omega_h_dist.cpp
index 771d228..96a1064 100644
--- a/src/Omega_h_dist.cpp
+++ b/src/Omega_h_dist.cpp
@@ -132,9 +132,11 @@ Future<T> Dist::iexch(Read<T> data, Int width) const {
     data = permute(data, items2content_[F], width);
   }
   auto future = comm_[F]->ialltoallv(data, msgs2content_[F], msgs2content_[R], width);
-  auto callback = [this,width](Read<T> buf) {
-    if (this->items2content_[R].exists()) {
-      buf = unmap(this->items2content_[R], buf, width);
+  // the future may outlive this object
+  auto const ritems2content = items2content_[R];
+  auto callback = [ritems2content, width](Read<T> buf) {
+    if (ritems2content.exists()) {
+      buf = unmap(ritems2content, buf, width);
     }
     return buf;
   };
-- 
2.43.0


From 999f4a7baac85e2574810768101eb2ed69dcc1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 20/62] fix: broadcast the length of a string from its root

---
 src/Omega_h_comm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_comm.cpp b/src/Omega_h_comm.cpp
index bb45468..f2bcdbf 100644
--- a/src/Omega_h_comm.cpp
+++ b/src/Omega_h_comm.cpp
@@ -267,7 +267,7 @@ void Comm::bcast(T& x, int root_rank) const {
 void Comm::bcast_string(std::string& s, int root_rank) const {
 #ifdef OMEGA_H_USE_MPI
   I32 len = static_cast<I32>(s.length());
-  bcast(len);
+  bcast(len, root_rank);
   s.resize(static_cast<std::size_t>(len));
   CALL(MPI_Bcast(&s[0], len, MPI_CHAR, root_rank, impl_));
 #else
-- 
2.43.0


From 720dea04ceb879623a787a750e46589913a84bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 21/62] fix: close ghost layers of hypercube meshes downward
 over all vertices of an element

---
 src/Omega_h_ghost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_ghost.cpp b/src/Omega_h_ghost.cpp
index 5f72da2..e190016 100644
--- a/src/Omega_h_ghost.cpp
+++ b/src/Omega_h_ghost.cpp
@@ -1,5 +1,6 @@
 #include "Omega_h_ghost.hpp"
 
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mesh.hpp"
@@ -89,7 +90,7 @@ static Dist close_up(
 }
 
 static Dist close_down(Mesh* mesh, Remotes old_use_owners, Dist elems2owners) {
-  auto nverts_per_elem = mesh->dim() + 1;
+  auto nverts_per_elem = element_degree(mesh->family(), mesh->dim(), VERT);
   auto owners2elems = elems2owners.invert();
   auto new_use_owners = owners2elems.exch(old_use_owners, nverts_per_elem);
   Dist uses2old_owners(mesh->comm(), new_use_owners, mesh->nents(VERT));
-- 
2.43.0


From ba3dc9655244cbfa3b71e6273aef19d5ae60529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 22/62] fix: coalesce computes offsets from the preceding
 array's size

The size of the array after the last one was read, past the end of the
vector, and every offset but the first was wrong.
---
 src/Omega_h_array_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index 340ca6e..6fb2e13 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -454,7 +454,7 @@ Read<T> coalesce(std::vector<Read<T>> arrays) {
   OMEGA_H_CHECK(offsets.data() != nullptr);
   offsets[0] = 0;
   for (std::size_t i = 1; i <= arrays.size(); ++i) {
-    offsets[i] = offsets[i - 1] + arrays[i].size();
+    offsets[i] = offsets[i - 1] + arrays[i - 1].size();
   }
   auto out_size = offsets[arrays.size()];
   auto out = Write<T>(out_size);
-- 
2.43.0


From 3f28c5bf5cc9b1445efd362dff6c92fb2e108ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 23/62] fix: repro_sum of nearly denormal values

The fixed point unit underflowed to zero when the largest magnitude was
below 2^-1022, so values were divided by zero and cast to integers.
---
 src/Omega_h_array_ops.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index 6fb2e13..90dd7c0 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -533,6 +533,13 @@ Int128 int128_sum(Reals const a, double const unit) {
   return transform_reduce(first, last, init, op, std::move(transform));
 }
 
+/* the unit must not underflow to zero when all values are (nearly) denormal:
+   every double is a multiple of the smallest denormal */
+static double fixpt_unit(int expo) {
+  auto const min_denorm_expo = DBL_MIN_EXP - DBL_MANT_DIG;
+  return exp2(double(max2(expo - MANTISSA_BITS, min_denorm_expo)));
+}
+
 Real repro_sum(Reals a) {
   if (a.size() == 0) {
     return 0.0;
@@ -541,7 +548,7 @@ Real repro_sum(Reals a) {
   int expo = max_exponent(a);
   auto const init = ArithTraits<int>::min();
   if (expo == init) return 0.0;
-  double unit = exp2(double(expo - MANTISSA_BITS));
+  double unit = fixpt_unit(expo);
   Int128 fixpt_sum = int128_sum(a, unit);
   double ret = fixpt_sum.to_double(unit);
   end_code();
@@ -554,7 +561,7 @@ Real repro_sum(CommPtr comm, Reals a) {
   auto expo0 = max_exponent(a);
   int expo = comm->allreduce(expo0, OMEGA_H_MAX);
   if (expo == init) return 0.0;
-  double unit = exp2(double(expo - MANTISSA_BITS));
+  double unit = fixpt_unit(expo);
   Int128 fixpt_sum = int128_sum(a, unit);
   fixpt_sum = comm->add_int128(fixpt_sum);
   double ret = fixpt_sum.to_double(unit);
-- 
2.43.0


From 697856f917bbf0f6b2363121df8b5ea79012c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 24/62] fix: sort_by_magnitude keeps track of the largest
 magnitude

It compared every later value with the first one only, so three values
were not always sorted.
---
 src/Omega_h_eigen.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_eigen.hpp b/src/Omega_h_eigen.hpp
index f666d33..437df5a 100644
--- a/src/Omega_h_eigen.hpp
+++ b/src/Omega_h_eigen.hpp
@@ -459,7 +459,10 @@ OMEGA_H_INLINE DiagDecomp<dim> sort_by_magnitude(DiagDecomp<dim> const dd) {
     auto max_m = std::abs(dd.l[perm[max_j]]);
     for (Int j = i + 1; j < dim; ++j) {
       auto m = std::abs(dd.l[perm[j]]);
-      if (m > max_m) max_j = j;
+      if (m > max_m) {
+        max_j = j;
+        max_m = m;
+      }
     }
     swap2(perm[i], perm[max_j]);
   }
-- 
2.43.0


From 4cd0f6612689a03c67c0f43abca26fa9d0276f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 25/62] fix: get_max_eigenvalues of small or large tensors

The root finder merges roots closer than an absolute 5e-5, so that the
tensors of metrics with lengths above a hundred or so all got their mean
eigenvalue. Use the Jacobi method, the tensors are symmetric.
---
 src/Omega_h_eigen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_eigen.cpp b/src/Omega_h_eigen.cpp
index 616f85a..e0503ee 100644
--- a/src/Omega_h_eigen.cpp
+++ b/src/Omega_h_eigen.cpp
@@ -24,8 +24,8 @@ Reals get_max_eigenvalues_dim(Reals symms) {
   auto out = Write<Real>(n);
   auto f = OMEGA_H_LAMBDA(LO i) {
     auto a = get_symm<dim>(symms, i);
-    auto ews = get_eigenvalues(a);
-    auto max_ew = maximum_magnitude(ews.values, ews.n);
+    auto ews = decompose_eigen_jacobi(a).l;
+    auto max_ew = maximum_magnitude(ews, dim);
     out[i] = max_ew;
   };
   parallel_for(n, f, "get_max_eigenvalues");
-- 
2.43.0


From 3cf093fe8eb1bc9198ceba1424d45591ad5a505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 26/62] fix: use the Jacobi method for symmetric tensors in
 metric code

The closed form solver merges eigenvalues closer than about 0.7% (2D) of
the largest and computes inaccurate eigenvectors for close ones (3D), so
that logarithms, exponentials, clamps and intersections of metrics were off
by up to sixteen percent.
---
 src/Omega_h_metric.cpp           | 4 ++--
 src/Omega_h_metric.hpp           | 8 ++++----
 src/Omega_h_metric_intersect.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index 98ee8d0..c0bba24 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -334,7 +334,7 @@ Reals get_implied_isos(Mesh* mesh) {
 template <Int dim>
 static OMEGA_H_INLINE_BIG Tensor<dim> metric_from_hessian(
     Tensor<dim> const hessian, Real const eps) {
-  auto const ed = decompose_eigen(hessian);
+  auto const ed = decompose_eigen_jacobi(hessian);
   auto const r = ed.q;
   auto const l = ed.l;
   constexpr auto c_num = square(dim);
@@ -426,7 +426,7 @@ Reals get_curvature_metrics(Mesh* mesh, Real segment_angle) {
        the two tangential directions to mesh surfaces */
     auto f = OMEGA_H_LAMBDA(LO const surf_vert) {
       auto const II = get_symm<2>(surface_info.surf_vert_IIs, surf_vert);
-      auto const II_decomp = decompose_eigen(II);
+      auto const II_decomp = decompose_eigen_jacobi(II);
       Vector<2> m_ews;
       for (Int i = 0; i < 2; ++i) {
         m_ews[i] = square(II_decomp.l[i] / segment_angle);
diff --git a/src/Omega_h_metric.hpp b/src/Omega_h_metric.hpp
index d42297d..118773e 100644
--- a/src/Omega_h_metric.hpp
+++ b/src/Omega_h_metric.hpp
@@ -61,7 +61,7 @@ OMEGA_H_INLINE Tensor<dim> compose_metric(
 
 template <Int dim>
 OMEGA_H_INLINE_BIG DiagDecomp<dim> decompose_metric(Tensor<dim> const m) {
-  auto const ed = decompose_eigen(m);
+  auto const ed = decompose_eigen_jacobi(m);
   auto const h = metric_lengths_from_eigenvalues(ed.l);
   return {ed.q, h};
 }
@@ -104,12 +104,12 @@ That is the mechanism we use here:
 
 template <Int dim>
 OMEGA_H_INLINE_BIG Tensor<dim> linearize_metric(Tensor<dim> const m) {
-  return log_spd_old(m);
+  return log_spd(m);
 }
 
 template <Int dim>
 OMEGA_H_INLINE_BIG Tensor<dim> delinearize_metric(Tensor<dim> const log_m) {
-  return exp_spd_old(log_m);
+  return exp_spd(log_m);
 }
 
 template <Int n, typename T>
@@ -152,7 +152,7 @@ OMEGA_H_INLINE_BIG Tensor<dim> average_metric(
 template <Int dim>
 OMEGA_H_INLINE_BIG Tensor<dim> clamp_metric(
     Tensor<dim> const m, Real const h_min, Real const h_max) {
-  auto ed = decompose_eigen(m);
+  auto ed = decompose_eigen_jacobi(m);
   auto const l_max = metric_eigenvalue_from_length(h_min);
   auto const l_min = metric_eigenvalue_from_length(h_max);
   for (Int i = 0; i < dim; ++i) ed.l[i] = clamp(ed.l[i], l_min, l_max);
diff --git a/src/Omega_h_metric_intersect.hpp b/src/Omega_h_metric_intersect.hpp
index ec5c9af..d776876 100644
--- a/src/Omega_h_metric_intersect.hpp
+++ b/src/Omega_h_metric_intersect.hpp
@@ -218,8 +218,8 @@ OMEGA_H_INLINE_BIG Tensor<dim> intersect_metrics(
   Tensor<dim> m1 = m1_in;
   Tensor<dim> m2 = m2_in;
   static_assert(std::is_same<decltype(m1), Tensor<dim>>::value, "not const!");
-  auto m1_dc = decompose_eigen(m1);
-  auto m2_dc = decompose_eigen(m2);
+  auto m1_dc = decompose_eigen_jacobi(m1);
+  auto m2_dc = decompose_eigen_jacobi(m2);
   Few<Int, dim> m1_ew_is_degen;
   Few<Int, dim> m2_ew_is_degen;
   for (Int i = 0; i < dim; ++i) {
@@ -252,7 +252,7 @@ OMEGA_H_INLINE_BIG Tensor<dim> intersect_metrics(
     auto m1_sqrt = compose_ortho(m1_dc.q, l_m1_sqrt);
     auto m1_inv_sqrt = compose_ortho(m1_dc.q, l_m1_inv_sqrt);
     auto m2_bar = transpose(m1_inv_sqrt) * m2 * m1_inv_sqrt;
-    auto m2_bar_dc = decompose_eigen(m2_bar);
+    auto m2_bar_dc = decompose_eigen_jacobi(m2_bar);
     auto p = m2_bar_dc.q;
     Vector<dim> l_m_int_bar;
     for (Int i = 0; i < dim; ++i) {
-- 
2.43.0


From 928403f7d10a2429609bae84fcbb885ebb1731da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 27/62] fix: get_derivative_metrics of an element tag

It looked the tag up at the vertices, where it is not.
---
 src/Omega_h_metric_input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_metric_input.cpp b/src/Omega_h_metric_input.cpp
index 10a637a..c496a3f 100644
--- a/src/Omega_h_metric_input.cpp
+++ b/src/Omega_h_metric_input.cpp
@@ -105,7 +105,7 @@ Reals get_derivative_metrics(Mesh* mesh, std::string const& name, Real knob) {
       data = as<Real>(tagbase)->array();
     }
   } else if (mesh->has_tag(dim, name)) {
-    auto tagbase = mesh->get_tagbase(VERT, name);
+    auto tagbase = mesh->get_tagbase(dim, name);
     if (tagbase->type() == OMEGA_H_REAL) {
       if (tagbase->ncomps() == dim) {
         state = ELEM_GRADIENT;
-- 
2.43.0


From ef0fec5375210b284a568eb70a7d03008c8c24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 28/62] fix: orthogonality tests in degenerate metric
 intersection

Negative dot products counted as orthogonal, and in 2D the case of parallel
degenerate directions was taken for orthogonal ones, dropping one of the two
metrics, while parallel ones were sent to invert a singular matrix.
---
 src/Omega_h_metric_intersect.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_metric_intersect.hpp b/src/Omega_h_metric_intersect.hpp
index d776876..8d289a1 100644
--- a/src/Omega_h_metric_intersect.hpp
+++ b/src/Omega_h_metric_intersect.hpp
@@ -44,8 +44,8 @@ OMEGA_H_INLINE_BIG Tensor<2> intersect_degenerate_metrics(Tensor<2> const m1,
     else
       l2 = m2_dc.l[i];
   }
-  if (v1 * v2 < OMEGA_H_EPSILON) {
-    // case 5.a
+  if (std::abs(cross(v1, v2)) < OMEGA_H_EPSILON) {
+    // case 5.a (v1 and v2 are parallel)
     return outer_product(u1, u1) * max2(l1, l2);
   } else {
     // case 5.b
@@ -137,7 +137,7 @@ OMEGA_H_INLINE_BIG Tensor<3> intersect_degenerate_metrics(Tensor<3> const m1,
         }
       }
     }
-    if (u2 * w1 < EPSILON) {
+    if (std::abs(u2 * w1) < EPSILON) {
       // case 3.a , u2 and w1 are orthogonal
       Matrix<3, 2> P;
       P[0] = u1;
-- 
2.43.0


From 5f4274d37815679738b513a9bdad0b5dfe96f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 29/62] fix: intersection of partially degenerate 3D metrics

The bases in which both metrics were assumed diagonal did not diagonalise
them: neither the third direction of two rank two metrics nor the basis of
the null space of a rank one metric took the other metric into account, so
the result requested longer lengths than its inputs in some directions.
---
 src/Omega_h_metric_intersect.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_metric_intersect.hpp b/src/Omega_h_metric_intersect.hpp
index 8d289a1..ca94d36 100644
--- a/src/Omega_h_metric_intersect.hpp
+++ b/src/Omega_h_metric_intersect.hpp
@@ -151,9 +151,15 @@ OMEGA_H_INLINE_BIG Tensor<3> intersect_degenerate_metrics(Tensor<3> const m1,
       return P * (mint_bar * PT);
     } else {
       // case 3.b, u2 and w1 are not orthogonal
+      // choose the basis of the null space of m2 in which m1 is diagonal
+      Matrix<3, 2> N;
+      N[0] = v2;
+      N[1] = w2;
+      auto const m1_dc_null = decompose_eigen_jacobi(transpose(N) * (m1 * N));
+      N = N * m1_dc_null.q;
       Tensor<3> P;
-      P[0] = v2;
-      P[1] = w2;
+      P[0] = N[0];
+      P[1] = N[1];
       P[2] = w1;
       auto Pinv = invert(P);
       Vector<3> l;
@@ -196,7 +202,8 @@ OMEGA_H_INLINE_BIG Tensor<3> intersect_degenerate_metrics(Tensor<3> const m1,
       return P * (mint_bar * PT);
     } else {
       // case 4.b
-      w = normalize(w);
+      // the third direction that makes both metrics diagonal in (w1, w2, w)
+      w = normalize(cross(m1 * w2, m2 * w1));
       Tensor<3> P;
       P[0] = w1;
       P[1] = w2;
-- 
2.43.0


From 2884d903ae9eaf8e7aeb8cd67bd40538c279fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 30/62] fix: project_by_fit and project_by_average on ranks
 without elements

They divided by the number of elements of the rank.
---
 src/Omega_h_recover.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_recover.cpp b/src/Omega_h_recover.cpp
index 8e72075..5258c38 100644
--- a/src/Omega_h_recover.cpp
+++ b/src/Omega_h_recover.cpp
@@ -133,11 +133,19 @@ bool has_interior_verts(Mesh* mesh) {
   return comm->reduce_or(have_local_interior);
 }
 
+// ranks without elements get the number of components from the others
+static Int get_elem_data_ncomps(Mesh* mesh, Reals e_data) {
+  Int ncomps = 0;
+  if (mesh->nelems() > 0) {
+    ncomps = divide_no_remainder(e_data.size(), mesh->nelems());
+  }
+  return mesh->comm()->allreduce(ncomps, OMEGA_H_MAX);
+}
+
 Reals project_by_fit(Mesh* mesh, Reals e_data) {
   OMEGA_H_CHECK(mesh->owners_have_all_upward(VERT));
-  OMEGA_H_CHECK(e_data.size() % mesh->nelems() == 0);
   OMEGA_H_CHECK(has_interior_verts(mesh));
-  auto ncomps = e_data.size() / mesh->nelems();
+  auto ncomps = get_elem_data_ncomps(mesh, e_data);
   auto dim = mesh->dim();
   auto v_coeffs = get_interior_coeffs(mesh, e_data, ncomps);
   auto class_dim = mesh->get_array<I8>(VERT, "class_dim");
@@ -150,8 +158,7 @@ Reals project_by_fit(Mesh* mesh, Reals e_data) {
 
 Reals project_by_average(Mesh* mesh, Reals e_data) {
   OMEGA_H_CHECK(mesh->owners_have_all_upward(VERT));
-  OMEGA_H_CHECK(e_data.size() % mesh->nelems() == 0);
-  auto ncomps = e_data.size() / mesh->nelems();
+  auto ncomps = get_elem_data_ncomps(mesh, e_data);
   auto verts2elems = mesh->ask_up(VERT, mesh->dim());
   auto weights = Reals(verts2elems.ab2b.size(), 1.0);
   auto avgs = graph_weighted_average(verts2elems, weights, e_data, ncomps);
-- 
2.43.0


From 9861336d5e5fb37201e3531bec9a36cabe60b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 31/62] fix: Mesh::get_tag by index accepted one past the last
 tag

---
 src/Omega_h_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 19d0333..11a209a 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -220,7 +220,7 @@ Int Mesh::ntags(Int ent_dim) const {
 TagBase const* Mesh::get_tag(Int ent_dim, Int i) const {
   check_dim2(ent_dim);
   OMEGA_H_CHECK(0 <= i);
-  OMEGA_H_CHECK(i <= ntags(ent_dim));
+  OMEGA_H_CHECK(i < ntags(ent_dim));
   return tags_[ent_dim][static_cast<std::size_t>(i)].get();
 }
 
-- 
2.43.0


From 022a319cd77182e15f937c49977f595c23587ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 32/62] fix: removing coordinates or metric left lengths,
 qualities and sizes cached

---
 src/Omega_h_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 11a209a..e62fc00 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -204,6 +204,7 @@ void Mesh::remove_tag(Int ent_dim, std::string const& name) {
   if (!has_tag(ent_dim, name)) return;
   check_dim2(ent_dim);
   tags_[ent_dim].erase(tag_iter(ent_dim, name));
+  react_to_set_tag(ent_dim, name);
 }
 
 bool Mesh::has_tag(Int ent_dim, std::string const& name) const {
-- 
2.43.0


From 598e0e63807e53e57215c8852c44caa3478a1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 33/62] fix: Mesh::set_parents left the children of the old
 parents cached

---
 src/Omega_h_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index e62fc00..473c87f 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -97,6 +97,7 @@ void Mesh::set_ents(Int ent_dim, Adj down) {
 void Mesh::set_parents(Int ent_dim, Parents parents) {
   check_dim2(ent_dim);
   parents_[ent_dim] = std::make_shared<Parents>(parents);
+  for (Int d = 0; d <= dim(); ++d) children_[d][ent_dim] = ChildrenPtr();
 }
 
 CommPtr Mesh::comm() const { return comm_; }
-- 
2.43.0


From a2527532c75d745e8ef9760356a1788813129914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 34/62] fix: Mesh::set_comm left an exchange plan with the old
 ranks cached

---
 src/Omega_h_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 473c87f..29b3afa 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -68,6 +68,7 @@ void Mesh::set_comm(CommPtr const& new_comm) {
       auto dist = ask_dist(d);
       dist.change_comm(new_comm);
       owners_[d].ranks = dist.items2ranks();
+      dists_[d] = DistPtr();
     }
   }
   comm_ = new_comm;
-- 
2.43.0


From d17692d58bb4599cea41a7ccb78f98f4bbba4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 35/62] fix: children of vertices were inverted from entities
 without parents

---
 src/Omega_h_adj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_adj.cpp b/src/Omega_h_adj.cpp
index d4c243d..7cc55e0 100644
--- a/src/Omega_h_adj.cpp
+++ b/src/Omega_h_adj.cpp
@@ -267,7 +267,7 @@ Bytes filter_parents(Parents const c2p, Int const parent_dim) {
   Write<Byte> filter(c2p.parent_idx.size());
   auto f = OMEGA_H_LAMBDA(LO c) {
     auto const code = c2p.codes[c];
-    if (amr::code_parent_dim(code) == parent_dim)
+    if (c2p.parent_idx[c] >= 0 && amr::code_parent_dim(code) == parent_dim)
       filter[c] = 1;
     else
       filter[c] = 0;
-- 
2.43.0


From 1d6727a01f4db42b4b7f7ab2df9afadd218c3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 36/62] fix: AMR inheritance of tags with several components
 wrote out of bounds

---
 src/Omega_h_amr_transfer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_amr_transfer.cpp b/src/Omega_h_amr_transfer.cpp
index c339943..829a1bd 100644
--- a/src/Omega_h_amr_transfer.cpp
+++ b/src/Omega_h_amr_transfer.cpp
@@ -139,7 +139,7 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
   Few<Write<T>, 4> new_data;
   auto ncomps = old_mesh->get_tag<T>(0, name)->ncomps();
   for (Int prod_dim = 0; prod_dim <= old_mesh->dim(); ++prod_dim) {
-    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim), -1);
+    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim) * ncomps, -1);
     auto old_data = old_mesh->get_array<T>(prod_dim, name);
     auto same_data =
         read(unmap(same_ents2old_ents[prod_dim], old_data, ncomps));
@@ -153,7 +153,10 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
       auto parent_ent = parents.parent_idx[prod_ent];
       auto code = parents.codes[prod_ent];
       auto parent_dim = code_parent_dim(code);
-      new_data[prod_dim][prod_ent] = new_data[parent_dim][parent_ent];
+      for (Int c = 0; c < ncomps; ++c) {
+        new_data[prod_dim][prod_ent * ncomps + c] =
+            new_data[parent_dim][parent_ent * ncomps + c];
+      }
     };
     parallel_for(prods2new_ents[prod_dim].size(), f);
     new_mesh->add_tag(
-- 
2.43.0


From 3ad56f6732777527854db53b50235a4eb5fbe3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 37/62] fix: renumbering or derefining a mesh forgot the
 parents of vertices

---
 src/Omega_h_unmap_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_unmap_mesh.cpp b/src/Omega_h_unmap_mesh.cpp
index 990ef61..0d9c098 100644
--- a/src/Omega_h_unmap_mesh.cpp
+++ b/src/Omega_h_unmap_mesh.cpp
@@ -67,7 +67,7 @@ void unmap_owners(Mesh* old_mesh, Mesh* new_mesh, Int ent_dim,
 
 void unmap_parents(Mesh* old_mesh, Mesh* new_mesh,
     LOs new_ents2old_ents_a[], Few<LOs, 4> old_ents2new_ents) {
-  for (Int ent_dim = 1; ent_dim <= new_mesh->dim(); ++ent_dim) {
+  for (Int ent_dim = 0; ent_dim <= new_mesh->dim(); ++ent_dim) {
     auto new_ents2old_ents = new_ents2old_ents_a[ent_dim];
     auto nnew_ents = new_ents2old_ents.size();
     Write<LO> new_parent_idx(nnew_ents, -1, "parent idx");
-- 
2.43.0


From 086c3d06ca48945a52719c2503a2ebcbe4088ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 38/62] fix: enforce_2to1_refine depended on element order,
 read unset marks and skipped material interfaces

---
 src/Omega_h_amr.cpp | 52 +++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/Omega_h_amr.cpp b/src/Omega_h_amr.cpp
index bd31771..e8f65e8 100644
--- a/src/Omega_h_amr.cpp
+++ b/src/Omega_h_amr.cpp
@@ -1,6 +1,7 @@
 #include <Omega_h_amr.hpp>
 #include <Omega_h_amr_topology.hpp>
 #include <Omega_h_amr_transfer.hpp>
+#include <Omega_h_array_ops.hpp>
 #include <Omega_h_for.hpp>
 #include <Omega_h_globals.hpp>
 #include <Omega_h_hypercube.hpp>
@@ -30,13 +31,11 @@ void remove_non_leaf_uses(Mesh* mesh) {
 }
 
 static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
-    Adj bridges2elems, Bytes is_interior, Bytes is_bridge_leaf,
-    Int nbridges_per_elem, Children children, Bytes elems_are_marked,
-    Write<Byte> one_level_mark) {
+    Adj bridges2elems, Bytes is_bridge_leaf, Int nbridges_per_elem,
+    Children children, Bytes elems_are_marked) {
   Byte mark = 0;
   for (Int b = 0; b < nbridges_per_elem; ++b) {
     auto bridge = elems2bridges.ab2b[elem * nbridges_per_elem + b];
-    if (!is_interior[bridge]) continue;
     if (is_bridge_leaf[bridge]) continue;
     auto bridge_child_begin = children.a2ab[bridge];
     auto bridge_child_end = children.a2ab[bridge + 1];
@@ -44,10 +43,9 @@ static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
       auto child = children.ab2b[c];
       auto child_adj_elem_begin = bridges2elems.a2ab[child];
       auto child_adj_elem_end = bridges2elems.a2ab[child + 1];
-      OMEGA_H_CHECK((child_adj_elem_end - child_adj_elem_begin) == 1);
-      auto child_adj_elem = bridges2elems.ab2b[child_adj_elem_begin];
-      if (elems_are_marked[child_adj_elem]) mark = 1;
-      if (one_level_mark[child_adj_elem]) mark = 1;
+      for (auto ce = child_adj_elem_begin; ce < child_adj_elem_end; ++ce) {
+        if (elems_are_marked[bridges2elems.ab2b[ce]]) mark = 1;
+      }
     }
   }
   return mark;
@@ -62,22 +60,30 @@ Bytes enforce_2to1_refine(Mesh* mesh, Int bridge_dim, Bytes elems_are_marked) {
   auto elems2bridges = mesh->ask_down(elem_dim, bridge_dim);
   auto bridges2elems = mesh->ask_up(bridge_dim, elem_dim);
   auto nbridges_per_elem = Omega_h::hypercube_degree(elem_dim, bridge_dim);
-  auto is_interior = Omega_h::mark_by_class_dim(mesh, bridge_dim, elem_dim);
   auto children = mesh->ask_children(bridge_dim, bridge_dim);
-  Write<Byte> one_level_mark(mesh->nelems());
-  auto f = OMEGA_H_LAMBDA(LO elem) {
-    if (!is_elem_leaf[elem]) {
-      one_level_mark[elem] = 0;
-    } else if (elems_are_marked[elem]) {
-      one_level_mark[elem] = 1;
-    } else {
-      one_level_mark[elem] = should_elem_be_refined(elem, elems2bridges,
-          bridges2elems, is_interior, is_bridge_leaf, nbridges_per_elem,
-          children, elems_are_marked, one_level_mark);
-    }
-  };
-  Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
-  return one_level_mark;
+  auto marks = land_each(is_elem_leaf, elems_are_marked);
+  /* one added mark can require another, so repeat until nothing changes.
+     each pass only reads the marks of the previous one */
+  bool done;
+  do {
+    Write<Byte> next_marks(mesh->nelems());
+    auto f = OMEGA_H_LAMBDA(LO elem) {
+      if (!is_elem_leaf[elem]) {
+        next_marks[elem] = 0;
+      } else if (marks[elem]) {
+        next_marks[elem] = 1;
+      } else {
+        next_marks[elem] =
+            should_elem_be_refined(elem, elems2bridges, bridges2elems,
+                is_bridge_leaf, nbridges_per_elem, children, marks);
+      }
+    };
+    Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
+    auto next = Bytes(next_marks);
+    done = mesh->comm()->reduce_and(next == marks);
+    marks = next;
+  } while (!done);
+  return marks;
 }
 
 static void refine_ghosted(Mesh* mesh) {
-- 
2.43.0


From 5ebd2e1a0059528d68b8cc4fcc4c621108b524f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 39/62] fix: AMR on several ranks failed when no entity of some
 dimension was split

---
 src/Omega_h_modify.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_modify.cpp b/src/Omega_h_modify.cpp
index bc8db43..9389d70 100644
--- a/src/Omega_h_modify.cpp
+++ b/src/Omega_h_modify.cpp
@@ -92,6 +92,7 @@ static Remotes get_prod_owners_shared(Mesh* mesh, Few<LOs, 4> mods2mds,
     if (nmods == 0) nprods_per_mod = 0;
     else nprods_per_mod = divide_no_remainder(nmod_prods, nmods);
     nprods_per_mod = mesh->comm()->allreduce(nprods_per_mod, OMEGA_H_MAX);
+    if (nprods_per_mod == 0) continue;
     auto md_ranks = mesh->ask_owners(mod_dim).ranks;
     auto mod_ranks = read(unmap(mods2mds[mod_dim], md_ranks, 1));
     auto mod_prod_idxs = unmap_range(prod_begin, prod_end, prods2new_ents, 1);
-- 
2.43.0


From 11ae92744c1366271ec9bf959265e73a8903d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 40/62] fix: branches of a ternary with a constant condition

---
 src/Omega_h_expr.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Omega_h_expr.cpp b/src/Omega_h_expr.cpp
index 458a0df..d91f7dc 100644
--- a/src/Omega_h_expr.cpp
+++ b/src/Omega_h_expr.cpp
@@ -133,15 +133,17 @@ void promote(LO size, Int dim, any& x) {
 any ternary(LO size, Int dim, any const& cond, any& true_val, any& false_val) {
   OMEGA_H_TIME_FUNCTION;
   if (cond.type() == typeid(bool)) {
-    if (true_val.type() == typeid(Real)) {
-      return any_cast<bool>(cond) ? any_cast<Real>(true_val)
-                                  : any_cast<Real>(false_val);
-    } else if (true_val.type() == typeid(Reals)) {
-      return any_cast<bool>(cond) ? any_cast<Reals>(true_val)
-                                  : any_cast<Reals>(false_val);
-    } else {
-      throw ParserFail("Invalid true value type in ternary operator");
+    if (true_val.type() != false_val.type()) {
+      promote(size, dim, true_val);
+      promote(size, dim, false_val);
+      if (true_val.type() != typeid(Reals) ||
+          false_val.type() != typeid(Reals) ||
+          any_cast<Reals>(true_val).size() !=
+              any_cast<Reals>(false_val).size()) {
+        throw ParserFail("Mismatched value types in ternary operator");
+      }
     }
+    return any_cast<bool>(cond) ? true_val : false_val;
   } else if (cond.type() == typeid(Bytes)) {
     promote(size, dim, true_val);
     promote(size, dim, false_val);
-- 
2.43.0


From 424a007b26eb827791b8137b3ecca44be29d7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 41/62] fix: second index of expression tensors, checked
 indices

---
 src/Omega_h_expr.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/Omega_h_expr.cpp b/src/Omega_h_expr.cpp
index d91f7dc..a937882 100644
--- a/src/Omega_h_expr.cpp
+++ b/src/Omega_h_expr.cpp
@@ -374,21 +374,39 @@ any neg(Int dim, any const& val) {
   return neg_dim<1>(val);
 }
 
+Int access_index(Int dim, ExprReader::Args& args, std::size_t i) {
+  auto const index = any_cast<Real>(args.at(i));
+  if (!(0.0 <= index && index < Real(dim))) {
+    throw ParserFail("Index out of range in access operator\n");
+  }
+  return static_cast<Int>(index);
+}
+
+void check_access(ExprReader::Args& args, std::size_t nindices) {
+  if (args.size() != nindices) {
+    throw ParserFail("Wrong number of indices in access operator\n");
+  }
+}
+
 template <Int dim>
 any access(LO size, any& var, ExprReader::Args& args) {
-  auto i = static_cast<Int>(any_cast<Real>(args.at(0)));
-  auto j =
-      args.size() > 1 ? static_cast<Int>(any_cast<Real>(args.at(0))) : Int(-1);
   if (var.type() == typeid(Vector<dim>)) {
-    return (any_cast<Vector<dim>>(var))(i);
+    check_access(args, 1);
+    return (any_cast<Vector<dim>>(var))(access_index(dim, args, 0));
   } else if (var.type() == typeid(Tensor<dim>)) {
-    return (any_cast<Tensor<dim>>(var))(i, j);
+    check_access(args, 2);
+    return (any_cast<Tensor<dim>>(var))(
+        access_index(dim, args, 0), access_index(dim, args, 1));
   } else if (var.type() == typeid(Reals)) {
     auto array = any_cast<Reals>(var);
-    if (array.size() == size * dim) {
-      return Reals(get_component(array, dim, i));
+    if (array.size() == size * dim &&
+        (args.size() == 1 || array.size() != size * matrix_ncomps(dim, dim))) {
+      check_access(args, 1);
+      return Reals(get_component(array, dim, access_index(dim, args, 0)));
     } else if (array.size() == size * matrix_ncomps(dim, dim)) {
-      return Reals(get_component(array, matrix_ncomps(dim, dim), j * dim + i));
+      check_access(args, 2);
+      return Reals(get_component(array, matrix_ncomps(dim, dim),
+          access_index(dim, args, 0) * dim + access_index(dim, args, 1)));
     } else {
       std::stringstream ss;
       ss << "Unexpected array size " << array.size() << " in access operator\n";
-- 
2.43.0


From feadc178650438af7df5f36313d536a8371c2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 42/62] fix: vector() without arguments is an error

---
 src/Omega_h_expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_expr.cpp b/src/Omega_h_expr.cpp
index a937882..7809992 100644
--- a/src/Omega_h_expr.cpp
+++ b/src/Omega_h_expr.cpp
@@ -439,8 +439,8 @@ any make_vector(ExprReader::Args& args) {
 }
 
 any make_vector(LO size, Int dim, ExprReader::Args& args) {
-  if (args.size() > std::size_t(dim)) {
-    throw ParserFail("Too many arguments to vector()\n");
+  if (args.empty() || args.size() > std::size_t(dim)) {
+    throw ParserFail("Wrong number of arguments to vector()\n");
   }
   bool has_arrays = false;
   for (auto& arg : args)
-- 
2.43.0


From 18597daef93fb8ab6321599c110d87cc8d7e2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 43/62] fix: ternary_each of empty arrays

---
 src/Omega_h_array_ops.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index 90dd7c0..fe84934 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -313,8 +313,12 @@ Read<T> max_each(Read<T> a, Read<T> b) {
 template <typename T>
 Read<T> ternary_each(Bytes cond, Read<T> a, Read<T> b) {
   OMEGA_H_CHECK(a.size() == b.size());
-  auto width = divide_no_remainder(a.size(), cond.size());
   Write<T> c(a.size());
+  if (cond.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), cond.size());
   auto f = OMEGA_H_LAMBDA(LO i) { c[i] = cond[i / width] ? a[i] : b[i]; };
   parallel_for(c.size(), f, "ternary_each");
   return c;
-- 
2.43.0


From e2206a4e8f6ec8e1691dcf074e08f61c4920617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 44/62] fix: malformed numbers on the command line are errors

---
 src/Omega_h_cmdline.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_cmdline.cpp b/src/Omega_h_cmdline.cpp
index 6941e46..6d20c8b 100644
--- a/src/Omega_h_cmdline.cpp
+++ b/src/Omega_h_cmdline.cpp
@@ -1,6 +1,9 @@
 #include "Omega_h_cmdline.hpp"
 
+#include <cerrno>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 
 namespace Omega_h {
 
@@ -33,12 +36,23 @@ static bool parse_arg(char const* arg, std::string* p_value) {
 }
 
 static bool parse_arg(char const* arg, int* p_value) {
-  *p_value = std::atoi(arg);
+  char* end;
+  errno = 0;
+  auto const value = std::strtol(arg, &end, 10);
+  if (end == arg || *end != '\0' || errno == ERANGE ||
+      value < std::numeric_limits<int>::min() ||
+      value > std::numeric_limits<int>::max()) {
+    return false;
+  }
+  *p_value = int(value);
   return true;
 }
 
 static bool parse_arg(char const* arg, double* p_value) {
-  *p_value = std::atof(arg);
+  char* end;
+  auto const value = std::strtod(arg, &end);
+  if (end == arg || *end != '\0') return false;
+  *p_value = value;
   return true;
 }
 
@@ -169,9 +183,14 @@ bool CmdLine::parse(int* p_argc, char** argv, bool should_print) {
       parsed_help_ = true;
       ++i;
     } else if (args_.size() > nargs_parsed_) {
-      if (args_[nargs_parsed_]->parse(p_argc, argv, i, should_print)) {
-        ++nargs_parsed_;
+      if (!args_[nargs_parsed_]->parse(p_argc, argv, i, should_print)) {
+        if (should_print) {
+          std::cout << "failed to parse argument <"
+                    << args_[nargs_parsed_]->name() << ">\n";
+        }
+        return false;
       }
+      ++nargs_parsed_;
     } else {
       ++i;
     }
-- 
2.43.0


From fae382b3aceedd5356ecc52a7dd7a9e99506bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 45/62] fix: a command line flag is matched once

---
 src/Omega_h_cmdline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_cmdline.cpp b/src/Omega_h_cmdline.cpp
index 6d20c8b..52766fa 100644
--- a/src/Omega_h_cmdline.cpp
+++ b/src/Omega_h_cmdline.cpp
@@ -175,6 +175,7 @@ bool CmdLine::parse(int* p_argc, char** argv, bool should_print) {
           return false;
         }
         parsed_by_flag = true;
+        break;
       }
     }
     if (parsed_by_flag) {
-- 
2.43.0


From b36ef3891285f73eb3c02f30b4373692fde79efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 46/62] fix: YAML items after a document start or directive

---
 src/Omega_h_input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index 94f1ca3..8681b67 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -394,7 +394,7 @@ class InputYamlReader : public Reader {
           if (rhs.at(0).type() == typeid(InputMap)) {
             return map_next_item(rhs.at(0), rhs.at(1));
           } else {
-            return map_first_item(rhs.at(0));
+            return map_first_item(rhs.at(1));
           }
         } else {
           return any(std::move(rhs.at(0)));
-- 
2.43.0


From d155b55c7b515bd268e0f43fe4f62497a5a68548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 47/62] fix: first line break of YAML block scalars with CRLF

---
 src/Omega_h_input.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index 8681b67..fd058f0 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -786,8 +786,7 @@ class InputYamlReader : public Reader {
     if (!(ss >> chomping_indicator)) chomping_indicator = '\0';
     /* get information about newlines, indentation level, and comment from
        the leading_empties_or_comments string */
-    std::size_t first_newline =
-        leading_empties_or_comments.find_first_of("\r\n");
+    std::size_t first_newline = leading_empties_or_comments.find_first_of('\n');
     std::string newline;
     if (first_newline > 0 &&
         leading_empties_or_comments[first_newline - 1] == '\r') {
-- 
2.43.0


From 637c03de02cfca869eb6ddeca0991b5764938d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 48/62] fix: fold lines of YAML folded scalars

---
 src/Omega_h_input.cpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index fd058f0..753efed 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -331,6 +331,34 @@ static std::string remove_trailing_whitespace(std::string const& in) {
   return in.substr(0, new_end);
 }
 
+/* folding block scalars: between two lines which are not indented further,
+   a single newline becomes a space and the first of several is removed */
+static std::string fold_lines(
+    std::string const& in, std::string const& newline) {
+  std::string out;
+  auto is_text = [&](std::size_t i) {
+    return i < in.size() && in[i] != ' ' && in[i] != '\t';
+  };
+  std::size_t line_beg = 0;
+  while (true) {
+    auto const line_end = in.find(newline, line_beg);
+    if (line_end == std::string::npos) break;
+    out += in.substr(line_beg, line_end - line_beg);
+    auto next_beg = line_end;
+    std::size_t nnewlines = 0;
+    while (in.compare(next_beg, newline.size(), newline) == 0) {
+      next_beg += newline.size();
+      ++nnewlines;
+    }
+    if (line_end > line_beg && is_text(line_beg) && is_text(next_beg)) {
+      if (--nnewlines == 0) out += ' ';
+    }
+    while (nnewlines--) out += newline;
+    line_beg = next_beg;
+  }
+  return out + in.substr(line_beg);
+}
+
 static std::string remove_trailing_whitespace_and_newlines(
     std::string const& in) {
   std::size_t new_end = 0;
@@ -846,8 +874,6 @@ class InputYamlReader : public Reader {
       std::size_t next_newline = content.find_first_of("\n", unindent_pos);
       if (next_newline == std::string::npos) break;
       std::size_t start_cut = next_newline + 1;
-      /* folding block scalars remove newlines */
-      if (style == '>') start_cut -= newline.size();
       std::size_t end_cut = next_newline + 1;
       /* the actual amount of indentation in the content varies, start by
          marking it all for removal */
@@ -865,10 +891,9 @@ class InputYamlReader : public Reader {
       content = remove_trailing_whitespace_and_newlines(content);
       if (chomping_indicator != '-') content += newline;
     }
-    if (style == '|') {
-      // if not already, remove the leading newline
-      content = content.substr(newline.size(), std::string::npos);
-    }
+    // remove the leading newline
+    content = content.substr(newline.size(), std::string::npos);
+    if (style == '>') content = fold_lines(content, newline);
   }
 };
 
-- 
2.43.0


From a4d983d05321cc11342db473f180948112b2bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 49/62] fix: only closure configurations have immediate
 predecessors

---
 src/Omega_h_build_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_build_parser.cpp b/src/Omega_h_build_parser.cpp
index 2e509ef..7e9b3f5 100644
--- a/src/Omega_h_build_parser.cpp
+++ b/src/Omega_h_build_parser.cpp
@@ -476,7 +476,7 @@ static ParserGraph make_immediate_predecessor_graph(StateConfigs const& scs,
         auto config_j = at(state.configs, cis_j);
         auto& config2 = at(cs, config_j);
         auto& prod2 = at(grammar->productions, config2.production);
-        if (prod2.lhs == s) {
+        if (config2.dot == 0 && prod2.lhs == s) {
           auto sc_i = at(states2scs, s_i, cis_i);
           auto sc_j = at(states2scs, s_i, cis_j);
           add_edge(out, sc_j, sc_i);
-- 
2.43.0


From df3549a425159d8091fc4befddea8e27f9a6f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 50/62] fix: moved markers in LALR lane tracing

---
 src/Omega_h_build_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_build_parser.cpp b/src/Omega_h_build_parser.cpp
index 7e9b3f5..148caaa 100644
--- a/src/Omega_h_build_parser.cpp
+++ b/src/Omega_h_build_parser.cpp
@@ -708,7 +708,9 @@ static void deal_with_tests_failed(int& num_originators_failed,
     if (verbose)
       std::cerr << "    the first was " << zeta_double_prime_addr << '\n';
     OMEGA_H_CHECK(at(lane, size(lane) - 1) == zeta_double_prime_addr);
-    OMEGA_H_CHECK(at(lane, size(lane) - 2) == zeta_addr);
+    /* markers may have been moved in between by move_markers() */
+    OMEGA_H_CHECK(at(lane, size(lane) - 2) == zeta_addr ||
+                  at(lane, size(lane) - 2) == MARKER);
     if (verbose)
       std::cerr << "    pop LANE, push {marker, " << zeta_double_prime_addr
                 << "} onto it:\n    ";
-- 
2.43.0


From 25c789a2d3e1b56348ec7812f0b1a5906bab4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 51/62] fix: a lone backslash is no regular expression

---
 src/Omega_h_regex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_regex.cpp b/src/Omega_h_regex.cpp
index 11862fb..b5e37e1 100644
--- a/src/Omega_h_regex.cpp
+++ b/src/Omega_h_regex.cpp
@@ -77,6 +77,7 @@ FiniteAutomaton build_lexer() {
     auto it = nonmeta_chars.find(get_symbol(meta_char));
     nonmeta_chars.erase(it);
   }
+  nonmeta_chars.erase(get_symbol('\\'));
   auto lex_nonmeta =
       FiniteAutomaton::make_set_nfa(NCHARS, nonmeta_chars, TOK_CHAR);
   auto lex_slash = make_char_single_nfa('\\');
-- 
2.43.0


From 9e7061dccf041f241063b5ca90eeb64525a7c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 52/62] fix: self closing tags without a space in xml_lite

---
 src/Omega_h_xml_lite.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_xml_lite.cpp b/src/Omega_h_xml_lite.cpp
index 9ca67e1..0631a19 100644
--- a/src/Omega_h_xml_lite.cpp
+++ b/src/Omega_h_xml_lite.cpp
@@ -46,9 +46,11 @@ bool parse_tag(std::string const& line, xml_lite::Tag* tag_out) {
       case 3:
         if (c == ' ')
           state = 4;
-        else if (c == '/')
+        else if (c == '/') {
+          if (tag.type == xml_lite::Tag::START)
+            tag.type = xml_lite::Tag::SELF_CLOSING;
           state = 8;
-        else if (c == '>')
+        } else if (c == '>')
           state = 9;
         else
           tag.elem_name.push_back(c);
-- 
2.43.0


From 566c303d753ec1302cc819616dd34dfc2983badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 53/62] fix: order received content deterministically in Dist

---
 src/Omega_h_dist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_dist.cpp b/src/Omega_h_dist.cpp
index 96a1064..f08c025 100644
--- a/src/Omega_h_dist.cpp
+++ b/src/Omega_h_dist.cpp
@@ -76,7 +76,7 @@ void Dist::set_dest_ranks(Read<I32> items2ranks_in) {
 void Dist::set_dest_idxs(LOs fitems2rroots, LO nrroots) {
   OMEGA_H_TIME_FUNCTION;
   auto const rcontent2rroots = exch(fitems2rroots, 1);
-  auto const rroots2rcontent = invert_map_by_atomics(rcontent2rroots, nrroots);
+  auto const rroots2rcontent = invert_map_by_sorting(rcontent2rroots, nrroots);
   roots2items_[R] = rroots2rcontent.a2ab;
   items2content_[R] = rroots2rcontent.ab2b;
 }
-- 
2.43.0


From cc5ff0640e16307e9fea6eaee0a6334c20521017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 54/62] fix: negative physical tags in Gmsh 2.2 files

---
 src/Omega_h_gmsh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 43a5d0e..435ee3a 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -429,7 +429,7 @@ void read_internal(std::istream& stream, Mesh* mesh) {
           binary::read_value(stream, physical, needs_swapping);
           binary::read_value(stream, elementary, needs_swapping);
           ent_class_ids[dim].push_back(elementary);
-          if (physical != 0) {
+          if (physical > 0) {
             ent2physical[dim].emplace(elementary, physical);
           }
           for (Int k = 2; k < ntags; ++k) {
@@ -458,7 +458,7 @@ void read_internal(std::istream& stream, Mesh* mesh) {
         Int physical, elementary;
         stream >> physical >> elementary;
         ent_class_ids[dim].push_back(elementary);
-        if (physical != 0) {
+        if (physical > 0) {
           ent2physical[dim].emplace(elementary, physical);
         }
         Int tag;
-- 
2.43.0


From 438456eb69f56c76640494527042d24f0b8017fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 55/62] fix: hinges with more than two surface sides in
 get_hinge_angles

---
 src/Omega_h_surface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_surface.cpp b/src/Omega_h_surface.cpp
index c087a36..2c37288 100644
--- a/src/Omega_h_surface.cpp
+++ b/src/Omega_h_surface.cpp
@@ -68,9 +68,11 @@ Reals get_hinge_angles_tmpl(Mesh* mesh, Reals surf_side_normals,
       auto s = hinge_sides2sides[hs];
       auto ss = side2surf_side[s];
       if (-1 == ss) continue;
-      n[i++] = get_vector<dim>(surf_side_normals, ss);
+      if (i < 2) n[i] = get_vector<dim>(surf_side_normals, ss);
+      ++i;
     }
-    angles[surf_hinge] = std::acos(n[0] * n[1]);
+    // a non-manifold hinge is not smooth
+    angles[surf_hinge] = (i == 2) ? std::acos(n[0] * n[1]) : PI;
   };
   parallel_for(nsurf_hinges, f, "get_hingle_angles");
   return angles;
-- 
2.43.0


From 4a31e80869d393eac93624637358edace6bd52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 56/62] fix: ranks without vertices gave metric tags another
 width

---
 src/Omega_h_fix.cpp          | 17 +++++++----------
 src/Omega_h_metric.cpp       |  6 ++++++
 src/Omega_h_metric.hpp       |  1 +
 src/Omega_h_metric_input.cpp |  2 +-
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Omega_h_fix.cpp b/src/Omega_h_fix.cpp
index fb2ac62..763aeab 100644
--- a/src/Omega_h_fix.cpp
+++ b/src/Omega_h_fix.cpp
@@ -20,11 +20,11 @@ void compute_ill_metric_dim(
   std::cout << "getting element implied metrics\n";
   auto elem_metrics = get_element_implied_length_metrics(mesh);
   elem_metrics = apply_isotropy(mesh->nelems(), elem_metrics, isotropy);
-  auto ncomps = divide_no_remainder(elem_metrics.size(), mesh->nelems());
+  auto ncomps = symm_ncomps(get_metrics_dim(mesh, dim, elem_metrics));
   mesh->add_tag(dim, "metric", ncomps, elem_metrics);
   std::cout << "projecting them\n";
   auto metrics = project_metrics(mesh, elem_metrics);
-  OMEGA_H_CHECK(ncomps == divide_no_remainder(metrics.size(), mesh->nverts()));
+  OMEGA_H_CHECK(ncomps == symm_ncomps(get_metrics_dim(mesh, VERT, metrics)));
   if (isotropy == OMEGA_H_ANISOTROPIC) {
     for (Int i = 0; i < 5; ++i) {
       std::cout << "metric smoothing iteration " << i << '\n';
@@ -53,16 +53,13 @@ void compute_ill_metric_dim(
   std::cout << "projecting metrics elem -> node\n";
   metrics = project_metrics(mesh, elem_metrics);
   mesh->remove_tag(VERT, "metric");
-  mesh->add_tag(VERT, "metric",
-      divide_no_remainder(metrics.size(), mesh->nverts()), metrics);
+  mesh->add_tag(VERT, "metric", ncomps, metrics);
   mesh->remove_tag(VERT, "metric");
-  mesh->add_tag(VERT, "metric",
-      divide_no_remainder(metrics.size(), mesh->nverts()), metrics);
+  mesh->add_tag(VERT, "metric", ncomps, metrics);
   std::cout << "limiting metric gradation\n";
   metrics = limit_metric_gradation(mesh, metrics, 1.0);
   mesh->remove_tag(VERT, "metric");
-  mesh->add_tag(VERT, "metric",
-      divide_no_remainder(metrics.size(), mesh->nverts()), metrics);
+  mesh->add_tag(VERT, "metric", ncomps, metrics);
   mesh->ask_qualities();
   std::cout << "done with \"ill\" metric\n";
 }
@@ -83,7 +80,7 @@ static void compute_typical_metric(Mesh* mesh, Omega_h_Isotropy isotropy) {
   auto metrics = get_implied_metrics(mesh);
   metrics = apply_isotropy(mesh->nverts(), metrics, isotropy);
   metrics = limit_metric_gradation(mesh, metrics, 1.0);
-  auto ncomps = divide_no_remainder(metrics.size(), mesh->nverts());
+  auto ncomps = symm_ncomps(get_metrics_dim(mesh, VERT, metrics));
   mesh->remove_tag(VERT, "metric");
   mesh->add_tag(VERT, "metric", ncomps, metrics);
 }
@@ -136,7 +133,7 @@ void fix(Mesh* mesh, AdaptOpts const& adapt_opts, Omega_h_Isotropy isotropy,
 void grade_fix_adapt(
     Mesh* mesh, AdaptOpts const& opts, Reals target_metric, bool verbose) {
   verbose = verbose && can_print(mesh);
-  auto metric_dim = get_metrics_dim(mesh->nverts(), target_metric);
+  auto metric_dim = get_metrics_dim(mesh, VERT, target_metric);
   if (verbose) std::cout << "Limiting target metric gradation...\n";
   target_metric = Omega_h::limit_metric_gradation(mesh, target_metric, 0.5);
   mesh->remove_tag(VERT, "target_metric");
diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index c0bba24..c5150d1 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -34,6 +34,12 @@ Int get_metric_dim(Mesh* mesh) {
   return get_metric_dim(ncomps);
 }
 
+// same on all ranks, including those that hold no metrics
+Int get_metrics_dim(Mesh* mesh, Int ent_dim, Reals metrics) {
+  auto const local_dim = get_metrics_dim(mesh->nents(ent_dim), metrics);
+  return mesh->comm()->allreduce(local_dim, OMEGA_H_MAX);
+}
+
 template <Int dim>
 Reals clamp_metrics_dim(
     LO nmetrics, Reals metrics, Real h_min, Real h_max) {
diff --git a/src/Omega_h_metric.hpp b/src/Omega_h_metric.hpp
index 118773e..c714f02 100644
--- a/src/Omega_h_metric.hpp
+++ b/src/Omega_h_metric.hpp
@@ -186,6 +186,7 @@ class Mesh;
 Int get_metric_dim(Int ncomps);
 Int get_metrics_dim(LO nmetrics, Reals metrics);
 Int get_metric_dim(Mesh* mesh);
+Int get_metrics_dim(Mesh* mesh, Int ent_dim, Reals metrics);
 
 Reals get_mident_metrics(
     Mesh* mesh, Int ent_dim, LOs entities, Reals v2m, bool has_degen = false);
diff --git a/src/Omega_h_metric_input.cpp b/src/Omega_h_metric_input.cpp
index c496a3f..a7360eb 100644
--- a/src/Omega_h_metric_input.cpp
+++ b/src/Omega_h_metric_input.cpp
@@ -254,7 +254,7 @@ Reals generate_metrics(Mesh* mesh, MetricInput const& input) {
 }
 
 void add_metric_tag(Mesh* mesh, Reals metrics, std::string const& name) {
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  auto metric_dim = get_metrics_dim(mesh, VERT, metrics);
   mesh->add_tag(VERT, name, symm_ncomps(metric_dim), metrics);
 }
 
-- 
2.43.0


From e0ea4b2f385e6ff156cc0f8c0d0c46e82b1fbe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 57/62] fix: scatterplots of several ranks lost all but the
 last rank's points

---
 src/Omega_h_scatterplot.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/Omega_h_scatterplot.cpp b/src/Omega_h_scatterplot.cpp
index a029c6b..9efa552 100644
--- a/src/Omega_h_scatterplot.cpp
+++ b/src/Omega_h_scatterplot.cpp
@@ -38,19 +38,29 @@ Reals get_radial_scatter_coords(Reals coords, Vector<dim> center) {
   return coords_1d_w;
 }
 
+// ranks without points get the number of components from the others
+static Int get_scatter_ncomps(CommPtr comm, Reals coords_1d, Reals data) {
+  Int ncomps = 0;
+  if (coords_1d.size() > 0) {
+    ncomps = divide_no_remainder(data.size(), coords_1d.size());
+  }
+  return comm->allreduce(ncomps, OMEGA_H_MAX);
+}
+
 void write_scatterplot(std::string const& path, CommPtr comm, Reals coords_1d,
     Reals data, std::string const& separator) {
   HostRead<Real> coords_1d_h(coords_1d);
   HostRead<Real> data_h(data);
-  auto ncomps = divide_no_remainder(data.size(), coords_1d.size());
+  auto ncomps = get_scatter_ncomps(comm, coords_1d, data);
   for (I32 rank = 0; rank < comm->size(); ++rank) {
-    std::ofstream os;
-    if (rank)
-      os.open(path.c_str(), std::ios_base::ate);
-    else
-      os.open(path.c_str(), std::ios_base::trunc);
-    os << std::scientific << std::setprecision(17);
     if (comm->rank() == rank) {
+      // only the first rank starts a new file, the others append to it
+      std::ofstream os;
+      if (rank)
+        os.open(path.c_str(), std::ios_base::app);
+      else
+        os.open(path.c_str(), std::ios_base::trunc);
+      os << std::scientific << std::setprecision(17);
       for (LO i = 0; i < coords_1d_h.size(); ++i) {
         os << coords_1d_h[i];
         for (Int j = 0; j < ncomps; ++j) {
@@ -59,7 +69,6 @@ void write_scatterplot(std::string const& path, CommPtr comm, Reals coords_1d,
         os << '\n';
       }
     }
-    os.close();
     comm->barrier();
   }
 }
@@ -67,7 +76,7 @@ void write_scatterplot(std::string const& path, CommPtr comm, Reals coords_1d,
 void write_scatterplot(std::string const& path, Mesh* mesh, Int ent_dim,
     Reals coords_1d, Reals data, std::string const& separator) {
   auto comm = mesh->comm();
-  auto ncomps = divide_no_remainder(data.size(), coords_1d.size());
+  auto ncomps = get_scatter_ncomps(comm, coords_1d, data);
   if (comm->size() > 1) {
     auto copies2lins = copies_to_linear_owners(comm, mesh->globals(ent_dim));
     coords_1d = reduce_data_to_owners(coords_1d, copies2lins, 1);
-- 
2.43.0


From 720731496458662cdd9cca7ed5ab2c3d7175965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 58/62] fix: fix() no longer aborts on a mesh whose minimum
 quality rounds to above one

---
 src/Omega_h_fix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_fix.cpp b/src/Omega_h_fix.cpp
index 763aeab..8b241b6 100644
--- a/src/Omega_h_fix.cpp
+++ b/src/Omega_h_fix.cpp
@@ -95,7 +95,7 @@ void fix_for_given_metric(
   AdaptOpts opts = adapt_opts;
   while (true) {
     auto minqual_old = minqual;
-    opts.min_quality_allowed = minqual;
+    opts.min_quality_allowed = min2(minqual, 1.0);
     opts.max_length_allowed = max2(maxlen, opts.max_length_desired * 2.0);
     std::cout << "max_length_allowed(" << opts.max_length_allowed << ") = max("
               << "maxlen(" << maxlen << "), max_length_desired*2("
-- 
2.43.0


From 7d806e2e80e366ace4165b3440117d40164247ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 59/62] fix: rotating a cell's vertices no longer copies the
 first one over the others

---
 src/Omega_h_simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_simplify.cpp b/src/Omega_h_simplify.cpp
index 3205133..7efa986 100644
--- a/src/Omega_h_simplify.cpp
+++ b/src/Omega_h_simplify.cpp
@@ -37,7 +37,7 @@ OMEGA_H_INLINE bool lt(Int v_i, Int v_j, Int v_k, Int v_l) {
 
 OMEGA_H_INLINE void rot(LO v[], Int n) {
   auto const tmp = v[n - 1];
-  for (Int i = 0; i < n - 1; ++i) v[i + 1] = v[i];
+  for (Int i = n - 1; i > 0; --i) v[i] = v[i - 1];
   v[0] = tmp;
 }
 
-- 
2.43.0


From f093a27acb5d9a932c501390982cc42c5dea6ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 60/62] fix: splitting hexes rotates the vertices around the
 corner in the right order

---
 src/Omega_h_simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_simplify.cpp b/src/Omega_h_simplify.cpp
index 7efa986..c362da0 100644
--- a/src/Omega_h_simplify.cpp
+++ b/src/Omega_h_simplify.cpp
@@ -95,7 +95,7 @@ OMEGA_H_CONSTANT_DATA Int const hex_bur_faces[3][4] = {
    when a hex is rotated around its centroidal
    XYZ axis (the line between the front-lower-left
    corner and the back-upper-right corner). */
-OMEGA_H_CONSTANT_DATA Int const hex_bur_ring[6] = {1, 2, 3, 7, 5, 4};
+OMEGA_H_CONSTANT_DATA Int const hex_bur_ring[6] = {1, 2, 3, 7, 4, 5};
 
 OMEGA_H_DEVICE void hex_bur_rot_ntimes(LO hhv2v[], Int ntimes) {
   LO tmp[6];
-- 
2.43.0


From 5a0ed5a459919611df2f3b8e4f3a6d4a56eba323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:05 +0000
Subject: [PATCH 61/62] fix: diff command files may hold several variables
 sections

---
 src/Omega_h_compare.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 1ea46b3..c09a48d 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -348,7 +348,19 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
   auto mesh_dim = mesh->dim();
   Int linenum = 1;
   Int variables_dim = -1;
+  bool variables_given = false;
   VarCompareOpts variables_opts;
+  /* a variables section without any variables means all of them */
+  auto end_variables = [&]() {
+    if (variables_dim != -1 && !variables_given) {
+      for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
+        auto tagbase = mesh->get_tag(variables_dim, i);
+        p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
+      }
+    }
+    variables_dim = -1;
+    variables_given = false;
+  };
   for (std::string line; std::getline(file, line);) {
     std::stringstream line_stream(line);
     if (line.empty()) continue;
@@ -356,7 +368,9 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
     for (std::string token; line_stream >> token;) tokens.push_back(token);
     if (tokens.empty()) continue;
     if (tokens[0][0] == '#') continue;
-    if (variables_dim != -1 && line[0] == '\t') {
+    if (line[0] != '\t') end_variables();
+    if (variables_dim != -1) {
+      variables_given = true;
       auto name = tokens[0];
       if (name[0] == '!') {
         name = name.substr(1, std::string::npos);
@@ -381,13 +395,6 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
             parse_compare_opts(tokens, 1, variables_opts, path, linenum);
         p_opts->tags2opts[variables_dim][name] = variable_opts;
       }
-    } else if (variables_dim != -1 && line[0] != '\t' &&
-               p_opts->tags2opts[variables_dim].empty()) {
-      for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-        auto tagbase = mesh->get_tag(variables_dim, i);
-        p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-      }
-      variables_dim = -1;
     } else if (tokens[0] == "COORDINATES") {
       auto opts = parse_compare_opts(tokens, 1, all_defaults, path, linenum);
       p_opts->tags2opts[VERT]["coordinates"] = opts;
@@ -396,8 +403,7 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
       auto opts =
           parse_compare_opts(tokens, 2, p_opts->time_step_opts, path, linenum);
       p_opts->time_step_opts = opts;
-    } else if (variables_dim == -1 &&
-               parse_dim_token(tokens[0], mesh_dim) != -1) {
+    } else if (parse_dim_token(tokens[0], mesh_dim) != -1) {
       variables_dim = parse_dim_token(tokens[0], mesh_dim);
       if (!(tokens.size() > 1 && tokens[1] == "VARIABLES")) {
         Omega_h_fail("bad variables header at %s +%d\n", path.c_str(), linenum);
@@ -411,6 +417,7 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
       variables_opts =
           parse_compare_opts(tokens, start, all_defaults, path, linenum);
       if (do_all) {
+        variables_given = true;
         for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
           auto tagbase = mesh->get_tag(variables_dim, i);
           p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
@@ -419,12 +426,7 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
     }
     ++linenum;
   }
-  if (variables_dim != -1 && p_opts->tags2opts[variables_dim].empty()) {
-    for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-      auto tagbase = mesh->get_tag(variables_dim, i);
-      p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-    }
-  }
+  end_variables();
 }
 
 void accept_diff_program_cmdline(CmdLine const& cmdline, Mesh const* mesh,
-- 
2.43.0


From 4bd29c56e90bd101a32dd15e900d1ca375756f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 62/62] fix: time step tolerances are defined when a diff
 command file does not give any

---
 src/Omega_h_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index c09a48d..b7a92f6 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -444,6 +444,7 @@ void accept_diff_program_cmdline(CmdLine const& cmdline, Mesh const* mesh,
     *p_max_result = OMEGA_H_SAME;
   }
   if (cmdline.parsed("-f")) {
+    p_opts->time_step_opts = all_defaults;
     parse_exodiff_cmd_file(
         mesh, cmdline.get<std::string>("-f", "cmd_file"), p_opts, all_defaults);
   } else {
-- 
2.43.0

