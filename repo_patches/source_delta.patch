From 1272b3175ebba7319d5a86592eb976d7dd7b5eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 01/22] fix: normalisation of the 3D quintic spline kernel

The kernel integrated to 1.0028: with the support h the coefficient is
27/(120 pi) = 81/(360 pi).
---
 include/physics/kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/kernels.h b/include/physics/kernels.h
index 32ac0ad..d7704e6 100644
--- a/include/physics/kernels.h
+++ b/include/physics/kernels.h
@@ -39,7 +39,7 @@ namespace kernels {
 // h depends of the dimension and is added in the kernel
 const double cubic_spline_sigma[3] = {4. / 3., 40. / (7. * M_PI), 8. / M_PI};
 const double quintic_spline_sigma[3] = {
-  1. / 40., 63. / (478. * M_PI), 81. / (359. * M_PI)};
+  1. / 40., 63. / (478. * M_PI), 81. / (360. * M_PI)};
 const double wendland_c2_sigma[3] = {1.25, 7. / M_PI, 21. / (2. * M_PI)};
 const double wendland_c4_sigma[3] = {1.5, 9. / M_PI, 495. / (32. * M_PI)};
 const double wendland_c6_sigma[3] = {
-- 
2.43.0


From 0bb3a1b3d453a444e5c5233898ce9b802fb96634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 02/22] fix: adaptive time step never exceeds the stable step
 nor passes a scheduled output

---
 include/physics/default_physics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 0d5c93b..1313bee 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -787,8 +787,8 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     }
     if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
       dt_saved = dt;
-      totaltime_next = t_screen_output;
     }
+    totaltime_next = std::min(totaltime_next, t_screen_output);
   }
 
   if(out_scalar_dt > 0) {
@@ -801,8 +801,8 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     }
     if (totaltime + dt > t_scalar_output - 0.1*out_scalar_dt) {
       dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_scalar_output);
     }
+    totaltime_next = std::min(totaltime_next, t_scalar_output);
   }
 
   if(out_h5data_dt > 0) {
@@ -815,8 +815,8 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     }
     if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {
       dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_h5data_output);
     }
+    totaltime_next = std::min(totaltime_next, t_h5data_output);
   }
   dt = totaltime_next - totaltime;
 
-- 
2.43.0


From 98c19695d7a8dfb8b39e85ea3ccb13123de8ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:10 +0000
Subject: [PATCH 03/22] fix: Morton key of a given depth starts with the
 leading one of that depth

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index fc26638..1a9c997 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -503,8 +503,8 @@ public:
   morton_curve_u(const std::array<point_t, 2> & range,
     const point_t & p,
     const size_t depth) {
-    *this = filling_curve<DIM, T, morton_curve_u>::min();
     assert(depth <= max_depth_);
+    value_ = int_t(1) << depth * dimension;
     std::array<int_t, dimension> coords;
     const int_t max_val = (int_t(1) << (bits_ - 1) / dimension)-1;
     for(size_t i = 0; i < dimension; ++i) {
-- 
2.43.0


From 5cc3e92f484e4157c7fb1415162d5900c63de348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:10 +0000
Subject: [PATCH 04/22] fix: conflict_depth compares from the maximum depth
 value

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 1a9c997..36d193c 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -106,7 +106,7 @@ public:
   }
   //! Search for the depth were two keys are in conflict
   int conflict_depth(filling_curve key_a, filling_curve key_b) {
-    int conflict = max_depth;
+    int conflict = max_depth_;
     while(key_a != key_b) {
       key_a.pop();
       key_b.pop();
-- 
2.43.0


From b6644fcf2447d4eb505855bc667688039dd4f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:26 +0000
Subject: [PATCH 05/22] fix: 3D Hilbert keys follow the curve and are inverted
 by coordinates

---
 include/tree_topology/filling_curve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 36d193c..a3077ce 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -295,7 +295,7 @@ public:
       }
       if constexpr (dimension == 3) {
         value_ += s * s * s * ((7 * bits[0]) ^ (3 * bits[1]) ^ bits[2]);
-        rotation3d(s, coords, bits);
+        unrotation3d(s, coords, bits);
       }
     }
     // Then truncate the key to the depth
@@ -313,7 +313,7 @@ public:
       std::array<int_t, dimension> bits = {};
       if constexpr (dimension == 3) {
         bits[0] = (key & 4) > 0;
-        bits[1] = ((key & 2) ^ bits[0]) > 0;
+        bits[1] = ((key & 2) >> 1) ^ bits[0];
         bits[2] = ((key & 1) ^ bits[0] ^ bits[1]) > 0;
         rotation3d(mask, coords, bits);
         coords[0] += bits[0] * mask;
-- 
2.43.0


From 5672f06d048a9be5bcf351119d57faf9bafc0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:26 +0000
Subject: [PATCH 06/22] fix: 1D Hilbert keys keep every bit of the cell and are
 inverted by coordinates

---
 include/tree_topology/filling_curve.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index a3077ce..55c6d6d 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -279,7 +279,7 @@ public:
     // Handle 1D case
     if(dimension == 1) {
       assert(value_ & 1UL << max_depth_);
-      value_ |= coords[0] >> dimension;
+      value_ |= coords[0];
       value_ >>= (max_depth_ - depth);
       return;
     }
@@ -327,6 +327,9 @@ public:
         coords[0] += bits[0] * mask;
         coords[1] += bits[1] * mask;
       }
+      if constexpr (dimension == 1) {
+        coords[0] += (key & 1) * mask;
+      }
       key >>= dimension;
     }
     assert(key == int_t(1));
-- 
2.43.0


From a2dc3a5c8034921b7193df0d7c18466d52b17985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 07/22] fix: tensor += and -= with itself as right-hand side
 had no effect

---
 include/tensor.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tensor.h b/include/tensor.h
index 15921b7..8a57446 100644
--- a/include/tensor.h
+++ b/include/tensor.h
@@ -938,11 +938,9 @@ struct tensor_u<T, ST, D, Ds...> {
 
 #define def_operator(op)                                                       \
   tensor_u & operator op(tensor_u const & rhs) {                               \
-    if(this != &rhs) {                                                         \
-      for(size_t i{0}; i < size(); i++) {                                      \
-        data_[i] op rhs[i];                                                    \
-      } /* for */                                                              \
-    } /* if */                                                                 \
+    for(size_t i{0}; i < size(); i++) {                                        \
+      data_[i] op rhs[i];                                                      \
+    } /* for */                                                                \
                                                                                \
     return *this;                                                              \
   }
-- 
2.43.0


From d96957e18dd2a9a012dd2be1553bfc908b60356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:24 +0000
Subject: [PATCH 08/22] fix: orbital force reads and writes only existing
 coordinates in 2D

---
 include/physics/eforce.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index f8004a2..160a4e7 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -289,13 +289,16 @@ acceleration_orbit(const body & particle) {
 
   point_t acc = 0.0;
 
-  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]);
+  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]);
+  if constexpr(gdimension > 2)
+    temp += SQ(rp[2]);
   temp = CU(temp);
   temp = sqrt(temp);
   double term1 = -grav * m_ns / temp;
   acc[0] += term1 * (rp[0] - a_sp);
   acc[1] += term1 * rp[1];
-  acc[2] += term1 * rp[2];
+  if constexpr(gdimension > 2)
+    acc[2] += term1 * rp[2];
 
   double term2 = grav * m_t / CU(a_sp);
   acc[0] += term2 * (rp[0] - a_sp * m_ns / m_t); // x-direction
@@ -311,8 +314,10 @@ potential_orbit(const point_t & rp) {
   static const double grav = gravitational_constant, a_sp = orbital_separation,
                       m_ns = mass_neutron_star, m_wd = mass_white_dwarf;
   const double m_t = m_ns + m_wd;
-  double term1 = sqrt(SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]));
-  term1 = -grav * m_ns / term1;
+  double term1 = SQ(rp[0] - a_sp) + SQ(rp[1]);
+  if constexpr(gdimension > 2)
+    term1 += SQ(rp[2]);
+  term1 = -grav * m_ns / sqrt(term1);
   double term2 = -0.5 * grav * m_t / CU(a_sp);
   term2 = term2 * (SQ(rp[0] - a_sp * m_ns / m_t) + SQ(rp[1]));
   phi = term1 + term2;
-- 
2.43.0


From 05adca7e1334609a3c7f460cdef108ece9c6acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:24 +0000
Subject: [PATCH 09/22] fix: external force selector keeps the wall directions
 alive while reading them

---
 include/physics/eforce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index 160a4e7..e4d1489 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -402,8 +402,8 @@ select(const std::string & efstr) {
     else if(boost::iequals(it->substr(0, 6), "walls:")) {
       // parse in which directions to place the walls
       // this can be e.g. "walls:xyz" or "walls:y" etc.
-      const char * cxyz = it->substr(6).c_str();
-      char imx = min(3, (int)it->substr(6).length());
+      const std::string cxyz = it->substr(6);
+      char imx = min(3, (int)cxyz.length());
       for(int i = 0; i < imx; ++i) {
         switch(cxyz[i]) {
           case 'x':
-- 
2.43.0


From 8c80530f5eaa167c39cfa056173901128cf33281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 10/22] fix: cubic interpolation outside of the table returns
 zero as documented instead of reading before it

---
 include/physics/density_profiles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 6f89ac2..eaf18d2 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -317,6 +317,8 @@ cubic_interp(const double x,
   const std::vector<double> & yp) {
   int i2 = get_interval_index(x, xp);
   const int N = xp.size();
+  if(i2 < 0 or i2 > N - 2) // outside of the range
+    return 0.0;
   if(i2 == 0)
     i2 = 1;
   if(i2 > N - 3)
-- 
2.43.0


From b0f001cd3b784c1cd4a3456dd02f6568ec093e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:30 +0000
Subject: [PATCH 11/22] fix: velocity divergence uses relative velocities

---
 include/physics/default_physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 1313bee..5a4f7a2 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -288,7 +288,7 @@ compute_divv(body & particle, std::vector<body *> & nbs) {
     const point_t DiWab = sph_kernel_gradient(pos_a - pos_b,h_ab);
     //point_t DiWab = .5*(sph_kernel_gradient(pos_a - pos_b,h_a)   // DEBUG
     //                 +  sph_kernel_gradient(pos_a - pos_b,h_b));
-    div_v += m_b*dot(v_a, DiWab);
+    div_v += m_b*dot(nb->getVelocity() - v_a, DiWab);
   }
   div_v /= particle.getDensity();
 
-- 
2.43.0


From 37c94340ccfc79d2a9aee12671ca821f5505782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:14 +0000
Subject: [PATCH 12/22] fix: share_nodes_ passes on the data of missing ranks
 when the rank count is no power of two

---
 include/tree_topology/tree_topology.h | 30 +++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index bb5b266..f95b3ac 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1580,6 +1580,9 @@ private:
     // of the ghost rank represented.
     std::vector<share_entity_t> r_ghosts_entities_n2;
     std::vector<share_node_t> r_ghosts_nodes_n2;
+    // Key range covered by these arrays, empty at first
+    key_t g_lobound = key_t::max();
+    key_t g_hibound = key_t::min();
 
     // Communication for all channels
     for(int i = 0; i < dim; ++i) {
@@ -1642,20 +1645,13 @@ private:
         // Case already handled before
         if(ghosts_rank == rank && partner < size)
           continue;
-        if(ghosts_rank > size && partner > size)
-          continue;
         if(partner >= size) {
           partner -= (1 << (dim - 1));
         }
         if(partner == rank) {
-          // Add into each buffer, no communication needed
-          ghosts_entities.clear();
-          ghosts_nodes.clear();
-          find_nodes_(ghosts_nodes, ghosts_entities);
-          r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-            ghosts_entities.begin(), ghosts_entities.end());
-          r_ghosts_nodes_n2.insert(
-            r_ghosts_nodes_n2.end(), ghosts_nodes.begin(), ghosts_nodes.end());
+          // Load the data of the ghost rank, no communication needed
+          lobound_ = std::min(g_lobound, lobound_);
+          hibound_ = std::max(g_hibound, hibound_);
           for(size_t j = 0; j < r_ghosts_entities_n2.size(); ++j) {
             if(r_ghosts_entities_n2[j].owner != rank) {
               shared_entities_.push_back(r_ghosts_entities_n2[j].entity);
@@ -1691,14 +1687,12 @@ private:
           std::pair<int[2], key_t[2]> s_keys;
           s_keys.first[0] = s_ge_size;
           s_keys.first[1] = s_gn_size;
-          s_keys.second[0] = lobound_;
-          s_keys.second[1] = hibound_;
+          s_keys.second[0] = rank == ghosts_rank ? lobound_ : g_lobound;
+          s_keys.second[1] = rank == ghosts_rank ? hibound_ : g_hibound;
           std::pair<int[2], key_t[2]> s_rkeys;
           MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, MPI_COMM_WORLD, &status);
-          lobound_ = std::min(s_rkeys.second[0], lobound_);
-          hibound_ = std::max(s_rkeys.second[1], hibound_);
           // Send entities
           r_ghosts_entities.resize(s_rkeys.first[0] / sz_entities);
           MPI_Sendrecv(&ghosts_entities[0], s_ge_size, MPI_BYTE, partner, 0,
@@ -1710,6 +1704,8 @@ private:
             &r_ghosts_nodes[0], s_rkeys.first[1], MPI_BYTE, partner, 0,
             MPI_COMM_WORLD, &status);
           if(rank == ghosts_rank) {
+            lobound_ = std::min(s_rkeys.second[0], lobound_);
+            hibound_ = std::max(s_rkeys.second[1], hibound_);
             // Insert the nodes/entities in the tree
             for(size_t j = 0; j < r_ghosts_entities.size(); ++j) {
               if(r_ghosts_entities[j].owner != rank) {
@@ -1728,10 +1724,12 @@ private:
             cofm_update_(root(), f_cc);
           }
           else {
+            g_lobound = std::min(s_rkeys.second[0], g_lobound);
+            g_hibound = std::max(s_rkeys.second[1], g_hibound);
             r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-              ghosts_entities.begin(), ghosts_entities.end());
+              r_ghosts_entities.begin(), r_ghosts_entities.end());
             r_ghosts_nodes_n2.insert(r_ghosts_nodes_n2.end(),
-              ghosts_nodes.begin(), ghosts_nodes.end());
+              r_ghosts_nodes.begin(), r_ghosts_nodes.end());
           }
         } // if
       } // if
-- 
2.43.0


From b702be2aa2996729dfddacbb85c06d313f1c80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:28 +0000
Subject: [PATCH 13/22] fix: the distributed sort reads past the end of an
 emptied range

A process whose part of a search range has become empty took the element
at its beginning as its median, which may lie past the end of the vector.
---
 mpisph/psort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpisph/psort.h b/mpisph/psort.h
index bd2b438..5f51c16 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -84,9 +84,9 @@ public:
       _ValueType * mymedians = new _ValueType[n_act];
       _ValueType * medians = new _ValueType[size * n_act];
       for(int k = 0; k < n_act; ++k) {
-        _ValueType * ptr = &d_ranges[k].first[0];
-        int index = subdist[k][rank] / 2;
-        mymedians[k] = ptr[index];
+        // an empty range has no median (and is skipped below)
+        if(subdist[k][rank] > 0)
+          mymedians[k] = d_ranges[k].first[subdist[k][rank] / 2];
       } // for
       MPI_Allgather(mymedians, n_act, MPI_valueType, medians, n_act,
         MPI_valueType, MPI_COMM_WORLD);
-- 
2.43.0


From a1a2d032ebcc5388ebbacbc6b793d502835d1306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 14/22] fix: ids generated for a snapshot without them repeat
 when the particles do not divide evenly

The first id of a process assumed the same number of particles on every
process; the last process then failed its assertion.
---
 mpisph/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 196190e..16bd9a7 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -335,7 +335,7 @@ H5P_bodiesReadDataset(std::vector<body> & bodies,
     else {
       // generate the ids
       log_one(trace) << "Setting ID for particles" << std::endl;
-      int64_t start = (IO_nparticles / size) * rank + 1;
+      int64_t start = IO_offset + 1;
       for(int64_t i = 0; i < IO_nparticlesproc; ++i) {
         bodies[i].set_id(start + i);
       }
-- 
2.43.0


From 5444af6e30bbedbf552a8049b587051e865d60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 15/22] fix: a restart from an iteration that was never written
 took another snapshot

The search through the separate snapshot files returned the last file it
looked at when no file held the requested iteration.
---
 mpisph/io.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 16bd9a7..d2f302f 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -521,7 +521,7 @@ H5P_fileExists(const char * prefix) {
  */
 int
 H5P_findIterationSnapshot(const char * prefix, const int iteration) {
-  int step = -1;
+  int found = -1;
   char fname[MAX_FNAME_LEN];
   char prefix_dirname[MAX_FNAME_LEN], buf[MAX_FNAME_LEN],
     prefix_basename[MAX_FNAME_LEN];
@@ -545,7 +545,7 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
     while((dir = readdir(d)) != NULL) {
 
       // skip files which are not "prefix_XXXXX.h5part"
-      step = H5P_isPrefixSnapshot(prefix_basename, dir->d_name);
+      int step = H5P_isPrefixSnapshot(prefix_basename, dir->d_name);
       if(step < 0)
         continue;
 
@@ -569,12 +569,14 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
       H5Fclose(file_id);
 
       // check if this is what we are looking for
-      if(file_iteration == iteration)
+      if(file_iteration == iteration) {
+        found = step;
         break;
+      }
     }
     closedir(d);
   }
-  return step;
+  return found;
 }
 
 /*
-- 
2.43.0


From db780459d58c4440aca8616cc7873d02b44f0576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:17 +0000
Subject: [PATCH 16/22] fix: old output files in another directory were not
 removed

The names found in the output directory were removed relative to the
working directory, which left stale snapshots behind (and could hit
equally named files elsewhere).
---
 mpisph/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index d2f302f..0424545 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -616,8 +616,10 @@ H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
       while((dir = readdir(d)) != NULL) {
         int stepnum = H5P_isPrefixSnapshot(output_basename, dir->d_name);
         if(stepnum > threshold_stepnum and rank == 0) {
-          if(remove(dir->d_name) == 0) { // if successful
-            log_one(warn) << "deleting old output file: " << dir->d_name
+          const std::string fname =
+            std::string(output_dirname) + "/" + dir->d_name;
+          if(remove(fname.c_str()) == 0) { // if successful
+            log_one(warn) << "deleting old output file: " << fname
                           << std::endl;
             ++n_deleted;
           }
-- 
2.43.0


From 50a9fe59fb59bb6facb9623da4d902bbc78ee51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:32 +0000
Subject: [PATCH 17/22] fix: the periodic box of one and two dimensions wrote a
 coordinate that does not exist

---
 include/physics/boundary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 5166c3e..b406050 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -133,11 +133,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // At least 1D
   min[0] = -half * box_length;
   max[0] = half * box_length;
-  if(gdimension >= 1) {
+  if(gdimension > 1) {
     min[1] = -half * box_width;
     max[1] = half * box_width;
   }
-  if(gdimension >= 2) {
+  if(gdimension > 2) {
     min[2] = -half * box_height;
     max[2] = half * box_height;
   }
-- 
2.43.0


From 38dd5c78337fffab6e48949a88bcc376f055d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:54 +0000
Subject: [PATCH 18/22] fix: diagnostic statistics of one process, and a
 largest neighbour count never reset

compute_velocity_stats left smallest, largest and average speed at the values
of the local particles (the average still divided by the number of all), and
compute_neighbors_stats kept the largest neighbour count of earlier outputs.
---
 include/diagnostic.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 924d98b..32ecf29 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -47,6 +47,7 @@ void
 compute_neighbors_stats(std::vector<body> & bodies, int64_t totalnbodies) {
 
   N_min = bodies[0].getNeighbors();
+  N_max = N_min;
   uint64_t N_total = 0;
   for(auto & b : bodies) {
     uint64_t N = b.getNeighbors();
@@ -103,6 +104,9 @@ compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
     V_min = std::min(V, V_min);
     V_tot += V;
   }
+  reduce_sum(V_tot);
+  reduce_min(V_min);
+  reduce_max(V_max);
   V_average = V_tot / totalnbodies;
 }
 
-- 
2.43.0


From 25a18d911e6650cc48a3cb550df23435ba05d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:05 +0000
Subject: [PATCH 19/22] fix: the fcc lattice repeated its first layer

The layers of a face-centred cubic lattice repeat after three; the generator
made a fourth one right above the next first one, with particles closer than
the separation.
---
 include/lattice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lattice.h b/include/lattice.h
index 97756b0..9e28894 100644
--- a/include/lattice.h
+++ b/include/lattice.h
@@ -275,7 +275,7 @@ generator_lattice_3d(const int lattice_type,
   }
   else if(lattice_type == 2) { // fcc lattice in 3D
     for(double z_p = zmin, zl = 0; z_p < zmax;
-        z_p += dz, zl = (zl + 1) * (zl < 3))
+        z_p += dz, zl = (zl + 1) * (zl < 2))
       for(double y_p = ymin - zl * dy / 3, yo = 0; y_p < ymax;
           y_p += dy, yo = 1 - yo)
         for(double x_p = xmin + (yo - zl) * dx / 2.; x_p < xmax; x_p += dx)
-- 
2.43.0


From 6014f9fd74138e0a0b601ab78ed2e590c97f17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:35 +0000
Subject: [PATCH 20/22] fix: particle data start from zero instead of unset
 memory

The first iteration read the velocity divergence, sound speed and signal
speed of freshly constructed particles: the adaptive viscosity and the
adaptive time step then depended on what was in memory.
---
 include/physics/body.h | 56 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/physics/body.h b/include/physics/body.h
index 82ab66b..6e6497a 100644
--- a/include/physics/body.h
+++ b/include/physics/body.h
@@ -219,36 +219,36 @@ public:
   }
 
 private:
-  point_t velocity_;
-  point_t velocityhalf_;
-  point_t acceleration_;
-  point_t g_acceleration_;
-  double g_potential_;
-  double density_;
-  double pressure_;
-  double entropy_;
-  double electronfraction_;
-  double temperature_;
-  double soundspeed_;
-  double internalenergy_;
-  double totalenergy_;
-  double dudt_;
-  double dedt_;
-  double adiabatic_;
-  double dadt_;
-  double dt_;
-  double alpha_;
-  double divergenceV_;
-  double dDivVdt_;
-  double trigger_;
-  double xi_;
-  double traceSS_;
-  double gradv_;
+  point_t velocity_ = point_t{};
+  point_t velocityhalf_ = point_t{};
+  point_t acceleration_ = point_t{};
+  point_t g_acceleration_ = point_t{};
+  double g_potential_ = 0.;
+  double density_ = 0.;
+  double pressure_ = 0.;
+  double entropy_ = 0.;
+  double electronfraction_ = 0.;
+  double temperature_ = 0.;
+  double soundspeed_ = 0.;
+  double internalenergy_ = 0.;
+  double totalenergy_ = 0.;
+  double dudt_ = 0.;
+  double dedt_ = 0.;
+  double adiabatic_ = 0.;
+  double dadt_ = 0.;
+  double dt_ = 0.;
+  double alpha_ = 0.;
+  double divergenceV_ = 0.;
+  double dDivVdt_ = 0.;
+  double trigger_ = 0.;
+  double xi_ = 0.;
+  double traceSS_ = 0.;
+  double gradv_ = 0.;
   particle_type_t type_;
-  size_t neighbors_;
+  size_t neighbors_ = 0;
   state_t state_;
-  double pressuremin_;
-  double signalspeed_;
+  double pressuremin_ = 0.;
+  double signalspeed_ = 0.;
 }; // class body
 
 #endif // body_h
-- 
2.43.0


From 6a1c0194776e2537670042841f6690ed6734c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:35 +0000
Subject: [PATCH 21/22] fix: signal speed and viscosity switch use the
 neighbors' values of this iteration

compute_density_pressure_soundspeed read the sound speeds of neighbors that
the same pass was still writing, and compute_alpha ran before the ghosts were
refreshed: results depended on the traversal order and the number of processes.
---
 app/drivers/hydro/main_driver.cc     | 14 ++++++++++++--
 app/drivers/newtonian/main_driver.cc | 14 ++++++++++++--
 include/physics/default_physics.h    |  1 -
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5729301..b674ed0 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -118,14 +118,19 @@ mpi_init_task(const char * parameter_file) {
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
       bs.apply_all(integration::save_velocityhalf);
 
+      // sync density, pressure and sound speed of the neighbors
+      bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
+
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "compute rhs of evolution equations" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if (physics::iteration < relaxation_steps) {
         log_one(trace) << "add relaxation terms" << std::endl;
@@ -192,14 +197,19 @@ mpi_init_task(const char * parameter_file) {
       log_one(trace) << "compute density pressure cs" << std::endl;
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
 
+      // sync density, pressure and sound speed of the neighbors
+      bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
+
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "compute adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "leapfrog: kick two (velocity)" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(physics::iteration < relaxation_steps) {
         bs.apply_all(physics::add_drag_acceleration);
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index c632886..09fd323 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -125,14 +125,19 @@ mpi_init_task(const char * parameter_file) {
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
       bs.apply_all(integration::save_velocityhalf);
 
+      // sync density, pressure and sound speed of the neighbors
+      bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
+
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "compute rhs of evolution equations" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(param::enable_fmm){
         log_one(trace) << "compute gravitation" << std::endl;
@@ -207,14 +212,19 @@ mpi_init_task(const char * parameter_file) {
       log_one(trace) << "compute density pressure cs" << std::endl;
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
 
+      // sync density, pressure and sound speed of the neighbors
+      bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
+
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "leapfrog: kick two (velocity)" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(param::enable_fmm){
         log_one(trace) << "computing gravitation" << std::endl;
diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 5a4f7a2..0a58d93 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -314,7 +314,6 @@ compute_density_pressure_soundspeed(body & particle,
     recover_internal_energy(particle);
   eos::compute_pressure(particle);
   eos::compute_soundspeed(particle);
-  compute_signalspeed(particle, nbs);
   if (sph_viscosity == visc_cullen)
     compute_divv(particle,nbs);
 }
-- 
2.43.0


From a441afdf763727cc8298b2858bd291db73d93699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 22/22] fix: the initial time is a real number, fractions were
 cut off

---
 include/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params.h b/include/params.h
index f78b33c..e67323d 100644
--- a/include/params.h
+++ b/include/params.h
@@ -166,7 +166,7 @@ DECLARE_PARAM(int64_t, final_iteration, 0)
 #endif
 
 #ifndef initial_time
-DECLARE_PARAM(int64_t, initial_time, 0)
+DECLARE_PARAM(double, initial_time, 0.0)
 #endif
 
 #ifndef final_time
-- 
2.43.0

