From f27628d523cd0902ffdea87b6f22c23679147923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 01/49] fix: initialize adaptive Boris pusher's relativistic
 switch

use_rel was only ever set to true, so slow particles took the relativistic
or the classical branch depending on stack garbage
---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From 1b19303a94cc53a000fbce4ec0515eb9f9a3612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 02/49] fix: normalize momentum by light speed in Vay pusher's
 gamma

uplocity is gamma*v in m/s, while sigma and u* are defined for u/c: without
the normalization a particle gains energy in a pure magnetic field
---
 src/pusher/pusherVay.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From e1d097f6d6344ba3c4f6412e3ff5f27d53565e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 03/49] fix: correct Higuera-Cary pusher's rotation and gamma

determinant and first row of the rotation used wrong field components, and
the intermediate gamma mixed u (m/s) with dimensionless terms: a pure magnetic
field changed the particle's energy
---
 src/pusher/pusherHC.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..cfe7b48 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,7 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 ) / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
@@ -91,10 +91,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From 3ebb5bddbf30fe178c5ad1b26e0feeda9bd46946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 04/49] fix: address corner overlay blocks by row and column
 sizes

Grid::overlay_xy indexed columns with the row count (and once rows with the
column count), so for non-square grids the diagonal halo exchange read and
wrote wrong (possibly out of range) cells.
---
 include/algo/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..ff18a30 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
-- 
2.43.0


From 84dc05ead67e3a01aa2baecd624338b3baa29209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:10 +0000
Subject: [PATCH 05/49] fix: advance H_r at the outer wall only once per time
 step

The regular loop of MaxwellSolverYee::calc_field_h covers the last row too,
so the separate outer wall block applied the Faraday update to H_r twice
there.
---
 src/maxwellSolver/maxwellSolverYee.cpp | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index bb9345d..45f6d21 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -116,19 +116,6 @@ void MaxwellSolverYee::calc_field_h()
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-  // H_r on outer wall (r=r)
-  if (geometry->walls[2])
-    for(int k = 0; k < geometry->cell_amount[1]; k++)
-    {
-      int i = geometry->cell_amount[0] - 1;
-      // alpha constant and delta_t production (to optimize calculations)
-      double alpha_t = time->step
-        * (field_e(1, i, k + 1) - field_e(1, i, k)) / (dz * MAGN_CONST);
-
-      field_h[0].set(i, k, field_h_at_et(0, i, k) + alpha_t / 2);
-      field_h_at_et[0].inc(i, k, alpha_t);
-    }
-
   // regular case
   for (int i = 0; i < geometry->cell_amount[0]; i++)
     for (int k = 0; k < geometry->cell_amount[1]; k++)
-- 
2.43.0


From 416aa51b05d7f55de81d634a00fb7b7474d58f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:25 +0000
Subject: [PATCH 06/49] fix: gather the fourth azimuthal electric node into the
 azimuthal component

MaxwellSolver::get_field_e added the E_phi[i+1][k+1] contribution to the
longitudinal component.
---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..eb05e6d 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From d3aa9876b05426c7019c543005ee13b2bb6829d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:19 +0000
Subject: [PATCH 07/49] fix: parenthesise the argument of CELL_VOLUME

CELL_VOLUME(i + 1, ...) expanded to 2 * i + 1 + 1 instead of 2 * (i + 1) + 1,
so the same grid point was attributed a different volume depending on whether
a particle approached it from below or from above (density weighting did not
conserve the weight), and the collision cell volume was wrong in every domain
with non-zero radial offset. Field gathering keeps its numerical volumes.
---
 include/geometry.hpp      |  2 +-
 include/maxwellSolver.hpp | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..7859774 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -183,7 +183,7 @@ public:
 
 // some geometry-related macros
 //! \f$ ( \pi \times (dr * (i+0.5))^2 - \pi \times (dr * (i-0.5))^2 ) * dz \f$
-#define CELL_VOLUME(i, dr, dz) constant::PI * (dz) * (dr) * (dr) * (2.0 * i + 1)
+#define CELL_VOLUME(i, dr, dz) constant::PI * (dz) * (dr) * (dr) * (2.0 * (i) + 1)
 
 //! volume of the cylindrical ring (internal cylinder on r1 is cut out)
 #define CYL_RNG_VOL(z, r1, r2) constant::PI * (z) * ((r2) * (r2) - (r1) * (r1))
diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index eb05e6d..9d9f79e 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -128,8 +128,8 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r+1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+3, dr, dz);
+    vol_1 = CELL_VOLUME(i_r + 0.5, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1.5, dr, dz);
     dz1 = (k_z + 1) * dz - longitude;
     dz2 = longitude - k_z * dz;
     r2 = (i_r + 1) * dr;
@@ -158,7 +158,7 @@ public:
     // if (k_z < 0) k_z = 0;
 
     vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
 
     r2 = (i_r + 0.5) * dr;
     dz1 = (k_z + 1.5) * dz - longitude;
@@ -188,8 +188,8 @@ public:
     // if (k_z < 0) k_z = 0;
 
     r2 = (i_r+1) * dr;
-    vol_1 = CELL_VOLUME(i_r + 1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r + 3, dr, dz);
+    vol_1 = CELL_VOLUME(i_r + 0.5, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1.5, dr, dz);
     dz1 = (k_z+1.5) * dz - longitude;
     dz2 = longitude - (k_z+0.5) * dz;
 
@@ -239,8 +239,8 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r+1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+3, dr, dz);
+    vol_1 = CELL_VOLUME(i_r + 0.5, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1.5, dr, dz);
     dz1 = (k_z+1) * dz - longitude;
     dz2 = longitude - k_z * dz;
     r2 = (i_r + 1) * dr;
@@ -264,7 +264,7 @@ public:
     k_z_shift = k_z - geometry->cell_dims[1];
 
     vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
     r2 = (i_r + 0.5) * dr;
 
     dz1 = (k_z + 1.5) * dz - longitude;
@@ -294,7 +294,7 @@ public:
     // if (k_z < 0) k_z = 0;
 
     vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
     r2 = (i_r + 0.5) * dr;
 
     dz1 = (k_z+1)*dz-longitude;
-- 
2.43.0


From 8f2d9c9c68c2eab60f9994dd698be7e83f8670d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:58 +0000
Subject: [PATCH 08/49] fix: weight particles located exactly at one cell from
 the axis into proper volume

At pos_r == dr the particle belongs to cell 1, but was weighted with the
volume of the axis cell.
---
 include/algo/weighter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/algo/weighter.hpp b/include/algo/weighter.hpp
index 5891039..2103bc8 100644
--- a/include/algo/weighter.hpp
+++ b/include/algo/weighter.hpp
@@ -46,7 +46,7 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
   T v_1 = CELL_VOLUME(r_i, dr, dz);
   T v_2 = CELL_VOLUME(r_i + 1, dr, dz);
 
-  if (pos_r > dr)
+  if (pos_r >= dr)
   {
     r1 =  pos_r - 0.5 * dr;
     r2 = (r_i + 0.5) * dr;
-- 
2.43.0


From 85d4e5b7eac84978e65654c341c79408eea7a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:32 +0000
Subject: [PATCH 09/49] fix: apply Lorentz factor to relativistic particles in
 momentum maps

calc_momentum_w and calc_momentum_abs_w scaled the momentum of slow particles
by gamma and left the fast ones classical.
---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..c29d21d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -729,7 +729,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -761,7 +761,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From 1c414442243759363d0e9504cadb6954b53fc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:32 +0000
Subject: [PATCH 10/49] fix: refresh absolute momentum map before temperature
 calculation

calc_temperature used momentum_abs_map_w, which nothing on its path updated,
so the temperature was computed from a stale (or zero) map.
---
 src/specieP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index c29d21d..476cf12 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -683,7 +683,8 @@ void SpecieP::calc_temperature()
 
   // calculate density initially
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_w();
+  calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
-- 
2.43.0


From bf02699fd67e89f74ab7b3f25d0282b1c15d9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 11/49] fix: store AVX square root with unaligned store

_mm256_store_pd requires a 32-byte aligned address, while the local array is only
8-byte aligned: builds with -mavx without optimisation crash in sq_rt.
---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 76182c8..3c35dd0 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -35,7 +35,7 @@ namespace algo::common
     double d[4];
     __m256d c = _mm256_sqrt_pd(_mm256_set_pd(x, 0, 0, 0));
 
-    _mm256_store_pd(d, c);
+    _mm256_storeu_pd(d, c); // d is not guaranteed to be 32-byte aligned
 
     return d[3];
   }
-- 
2.43.0


From 5a8d2583e5c189a7e24116be2aa3ca7e6556ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 12/49] fix: rotate velocity into the new local basis by the
 proper angle

After a free flight to (x, y) the new radial direction is (cos, sin), so the radial
velocity is cos * v_r + sin * v_phi. The opposite rotation was applied: a particle
with v_r = 0 moved outwards and got a negative radial velocity, and r * v_phi was
not conserved.
---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 476cf12..ac13d80 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -632,8 +632,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From bb43c8befde2fa5261a682fae6e68c0f1ffce1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 13/49] fix: turn velocity basis when a particle passes over
 the axis

P_COS is always the positive root, so for a particle, which passed over the axis
(negative position along the old radial direction), radial velocity got wrong sign:
it kept moving to the axis instead of moving away from it.
---
 src/specieP.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index ac13d80..e9e795d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -614,6 +614,14 @@ void SpecieP::back_position_to_rz()
   {
     double pos_r = P_POS_R((**p));
     double pos_phi = P_POS_PHI((**p));
+    if (pos_r < 0)
+    {
+      // the axis was passed over: turn local basis by pi (keeps P_COS positive)
+      pos_r = -pos_r;
+      pos_phi = -pos_phi;
+      P_VEL_R((**p)) = -P_VEL_R((**p));
+      P_VEL_PHI((**p)) = -P_VEL_PHI((**p));
+    }
     double r = algo::common::sq_rt(pos_r * pos_r + pos_phi * pos_phi);
     P_SIN((**p)) = pos_phi / r;
     P_POS_R((**p)) = r;
-- 
2.43.0


From 13504752882c452a46220ddd6a0ee51bd0a9b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:08 +0000
Subject: [PATCH 14/49] fix: reflect particles located exactly at zero
 coordinate

isnormal(0) is false, so a particle placed exactly at the local origin of the
domain (behind the wall plane) was not reflected.
---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index e9e795d..4f4249b 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -519,7 +519,7 @@ void SpecieP::reflect ()
     double pos_delta_z = pos_z - pos_old_z;
 
     while ( // catch multiple reflections
-      isnormal(pos_r) && isnormal(pos_z) && // ensure, that position components are not NANs
+      isfinite(pos_r) && isfinite(pos_z) && // ensure, that position components are not NANs
       (
         (pos_r > radius_wall && geometry->walls[2])
         || (pos_z > longitude_wall && geometry->walls[3])
-- 
2.43.0


From 0f094818955d72e157c2ec75f9eda85cb0a75864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 15/49] fix: do not wipe accumulated radial current when a
 particle moves strictly along the axis

---
 src/current/currentVB.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..28a267f 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -543,11 +543,6 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
-
     int res_k = k_n - k_o;
 
     switch(res_k)
-- 
2.43.0


From 323f16ed79b3d9c1be9785a654af6d486b44a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 16/49] fix: correct operator precedence in strictly radial
 current deposition

---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 28a267f..bb36926 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -665,7 +665,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -706,7 +706,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From 2b4ba4ace6cbee1266da38acb2adcb360aa044c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 17/49] fix: keep azimuthal current in the overlay area when r
 and z currents are deposited

---
 src/current/currentVB.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index bb36926..61dd650 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-- 
2.43.0


From 678958ab2a044c0b96f8965ca5f96a369e4b874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:57 +0000
Subject: [PATCH 18/49] fix: deposit currents of particles that start at a cell
 border or pass exactly through a cell corner

---
 src/current/currentVB.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 61dd650..a83c0e5 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -222,7 +222,7 @@ void CurrentVB::rz_current_distribution()
           if ((i_n != i_o) && (k_n == k_o))
           {
             // moving to center from outer to innter cell
-            if (P_POS_OLD_R((**i)) > (i_n + 1) * dr)
+            if (P_POS_OLD_R((**i)) >= (i_n + 1) * dr)
             {
               double a = (P_POS_OLD_R((**i)) - P_POS_R((**i))) / (P_POS_OLD_Z((**i)) - P_POS_Z((**i)));
               double r_boundary = (i_n + 1) * dr;
@@ -293,7 +293,7 @@ void CurrentVB::rz_current_distribution()
               double z2 = k_n * dz;
               double delta_r2 = (z2 - P_POS_OLD_Z((**i))) * a;
               double r2 = P_POS_OLD_R((**i)) + delta_r2;
-              if (z1 < k_n * dz)
+              if (z1 <= k_n * dz)
               {
                 simple_current_distribution(r1, z1 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n-1, p_charge);
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
@@ -317,7 +317,7 @@ void CurrentVB::rz_current_distribution()
               double z2 = (k_n + 1) * dz;
               double delta_r2 = -(P_POS_OLD_Z((**i))-z2) * a;
               double r2 = P_POS_OLD_R((**i)) + delta_r2;
-              if (z1>(k_n + 1) * dz)
+              if (z1>=(k_n + 1) * dz)
               {
                 simple_current_distribution(r1, z1 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n + 1, p_charge);
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
@@ -346,7 +346,7 @@ void CurrentVB::rz_current_distribution()
               double delta_r2 = -(z2-P_POS_OLD_Z((**i))) * a;
               double r2 = P_POS_OLD_R((**i))- delta_r2;
 
-              if (z1<(k_n) * dz)
+              if (z1<=(k_n) * dz)
               {
                 simple_current_distribution(r1, z1 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
@@ -372,7 +372,7 @@ void CurrentVB::rz_current_distribution()
               double delta_r2 = (z2-P_POS_Z((**i))) * a;
               double r2 = P_POS_R((**i)) + delta_r2;
 
-              if (z1>(k_n + 1) * dz)
+              if (z1>=(k_n + 1) * dz)
               {
                 simple_current_distribution(r1, z1, P_POS_OLD_R((**i)),P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
-- 
2.43.0


From 94c50f5360fe34b6012e719dcf9ea6f3302ce0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:25 +0000
Subject: [PATCH 19/49] fix: normalise ZigZag path weights by the cell size

---
 src/current/currentZigZag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 0bfd07c..d51d2e1 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -78,10 +78,10 @@ void CurrentZigZag::current_distribution()
       double F_z1 = charge_over_dt * (z_relay_pos - z_pos_old);
       double F_z2 = charge_over_dt * (z_pos_new - z_relay_pos);
 
-      double W_r1 = (r_pos_old + r_relay_pos) / 2 - i_o * dr;
-      double W_r2 = (r_pos_new + r_relay_pos) / 2 - i_n * dr;
-      double W_z1 = (z_pos_old + z_relay_pos) / 2 - k_o * dz;
-      double W_z2 = (z_pos_new + z_relay_pos) / 2 - k_n * dz;
+      double W_r1 = (r_pos_old + r_relay_pos) / 2 / dr - i_o;
+      double W_r2 = (r_pos_new + r_relay_pos) / 2 / dr - i_n;
+      double W_z1 = (z_pos_old + z_relay_pos) / 2 / dz - k_o;
+      double W_z2 = (z_pos_new + z_relay_pos) / 2 / dz - k_n;
 
       double one_minus_Wr1 = 1 - W_r1;
       double one_minus_Wr2 = 1 - W_r2;
-- 
2.43.0


From 1c2c89e06a1ecdc4987d63650491e9b27cc40ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:25 +0000
Subject: [PATCH 20/49] fix: weight ZigZag azimuthal current of the lower right
 node by its own longitudinal weight

---
 src/current/currentZigZag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index d51d2e1..db24fa3 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -101,7 +101,7 @@ void CurrentZigZag::current_distribution()
       // Let \f$ \phi_{relay} = \phi_{1} = 0
       // because geometry is axisymmetric
       double Jphi_i_jh_k = one_over_volume * F_phi * one_minus_Wr2 * one_minus_Wz2;
-      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z1;
+      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z2;
       double Jphi_i_1_jh_k = one_over_volume * F_phi * W_r2 * one_minus_Wz2;
       double Jphi_i_1_jh_k_1 = one_over_volume * F_phi * W_r2 * W_z2;
 
-- 
2.43.0


From a9284caa76d24db67787858b7b94dffaa6101c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:28 +0000
Subject: [PATCH 21/49] fix: exchange both diagonals of four adjacent domains

---
 include/algo/grid.hpp   | 22 ++++++++++++++++++++++
 include/algo/grid3d.hpp |  7 +++++++
 src/SMB.cpp             | 16 ++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index ff18a30..80c67b2 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -150,6 +150,28 @@ public:
     }
   };
 
+  void overlay_yx(Grid<T> rhsgrid)
+  // the other diagonal: `rhsgrid` is the previous neighbour by the first
+  // dimension and the next neighbour by the second dimension
+  {
+    unsigned int rhs_x_real_size = rhsgrid.x_real_size;
+
+    if (x_real_size == rhs_x_real_size && y_real_size == rhsgrid.y_real_size)
+      for (unsigned int d = 0; d < o_s; ++d)
+        for (unsigned int e = 0; e < o_s; ++e)
+        {
+          rhsgrid.grid[rhs_x_real_size-2*o_s+d][2*o_s-e-1] += grid[d][y_real_size-1-e];
+          grid[2*o_s-d-1][y_real_size-2*o_s+e] += rhsgrid.grid[rhs_x_real_size-1-d][e];
+
+          grid[d][y_real_size-1-e] = rhsgrid.grid[rhs_x_real_size-2*o_s+d][2*o_s-e-1];
+          rhsgrid.grid[rhs_x_real_size-1-d][e] = grid[2*o_s-d-1][y_real_size-2*o_s+e];
+        }
+    else
+    {
+      LOG_S(FATAL) << "overlay_yx: X or Y sizes of bottom-right and top-left grid are not equal. Can not overlay";
+    }
+  };
+
   void copy(Grid<T> rhs)
   // fully copy rhs grid to current grid element-by-element
   {
diff --git a/include/algo/grid3d.hpp b/include/algo/grid3d.hpp
index b525241..8e0899e 100644
--- a/include/algo/grid3d.hpp
+++ b/include/algo/grid3d.hpp
@@ -61,6 +61,13 @@ public:
     z_component.overlay_xy(trgrid.z_component);
   };
 
+  void overlay_yx(Grid3D<T> tlgrid)
+  {
+    r_component.overlay_yx(tlgrid.r_component);
+    phi_component.overlay_yx(tlgrid.phi_component);
+    z_component.overlay_yx(tlgrid.z_component);
+  };
+
   void overlay_set(T value)
   {
     r_component.overlay_set(value);
diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..1ff4e1b 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -591,6 +591,11 @@ void SMB::current_overlay ()
           {
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->current->current.overlay_xy(dst_domain->current->current);
+
+            // the other diagonal of the same four domains
+            Domain *next_r_domain = domains(i + 1, j);
+            Domain *next_z_domain = domains(i, j + 1);
+            next_r_domain->current->current.overlay_yx(next_z_domain->current->current);
           }
         }
     }
@@ -818,6 +823,12 @@ void SMB::field_h_overlay ()
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_h.overlay_xy(dst_domain->maxwell_solver->field_h);
             sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);
+
+            // the other diagonal of the same four domains
+            Domain *next_r_domain = domains(i + 1, j);
+            Domain *next_z_domain = domains(i, j + 1);
+            next_r_domain->maxwell_solver->field_h.overlay_yx(next_z_domain->maxwell_solver->field_h);
+            next_r_domain->maxwell_solver->field_h_at_et.overlay_yx(next_z_domain->maxwell_solver->field_h_at_et);
           }
         }
     }
@@ -1039,6 +1050,11 @@ void SMB::field_e_overlay ()
           {
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_e.overlay_xy(dst_domain->maxwell_solver->field_e);
+
+            // the other diagonal of the same four domains
+            Domain *next_r_domain = domains(i + 1, j);
+            Domain *next_z_domain = domains(i, j + 1);
+            next_r_domain->maxwell_solver->field_e.overlay_yx(next_z_domain->maxwell_solver->field_e);
           }
         }
     }
-- 
2.43.0


From a7cfd638619719e5ada02ea8abd9852df622906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:42 +0000
Subject: [PATCH 22/49] fix: find destination domain of a migrating particle
 for any division of cells between domains

---
 src/SMB.cpp | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 1ff4e1b..e2ad940 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -241,13 +241,13 @@ void SMB::particles_runaway_collector ()
                   int z_cell = P_CELL_Z((*o));
 
                   // this is unshifted domain numbers (local for SMB)
-                  unsigned int i_dst = (unsigned int)ceil (
-                    ( r_cell - __geometry->cell_dims[0] ) // we should make cell numbers local for SMB
-                    / sim_domain->geometry.cell_amount[0] );
+                  unsigned int i_dst = (unsigned int)(
+                    ( ( r_cell - __geometry->cell_dims[0] + 1 ) // we should make cell numbers local for SMB
+                      * __geometry->domains_amount[0] - 1 ) / __geometry->cell_amount[0] );
 
-                  unsigned int j_dst = (unsigned int)ceil (
-                    ( z_cell - __geometry->cell_dims[1] ) // we should make cell numbers local for SMB
-                    / sim_domain->geometry.cell_amount[1] );
+                  unsigned int j_dst = (unsigned int)(
+                    ( ( z_cell - __geometry->cell_dims[1] + 1 ) // we should make cell numbers local for SMB
+                      * __geometry->domains_amount[1] - 1 ) / __geometry->cell_amount[1] );
 
                   if (r_cell < 0 || z_cell < 0)
                   {
@@ -468,16 +468,13 @@ void SMB::particles_runaway_collector ()
         int r_cell = P_CELL_R((*n));
         int z_cell = P_CELL_Z((*n));
 
-        // FIXME: this is a hardcode
-        Domain *sim_domain = domains(0, 0);
+        unsigned int i_dst = (unsigned int)(
+          ( ( r_cell - geometry->cell_dims[0] + 1 ) // we should make cell numbers local for SMB
+            * geometry->domains_amount[0] - 1 ) / geometry->cell_amount[0] );
 
-        unsigned int i_dst = (unsigned int)ceil (
-          ( r_cell - geometry->cell_dims[0] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[0] );
-
-        unsigned int j_dst = (unsigned int)ceil (
-          ( z_cell - geometry->cell_dims[1] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[1] );
+        unsigned int j_dst = (unsigned int)(
+          ( ( z_cell - geometry->cell_dims[1] + 1 ) // we should make cell numbers local for SMB
+            * geometry->domains_amount[1] - 1 ) / geometry->cell_amount[1] );
 
         Domain *dst_domain = domains(i_dst, j_dst);
 
@@ -525,15 +522,13 @@ void SMB::particles_runaway_collector ()
 
 
         // this is unshifted domain numbers (local for SMB)
-        Domain *sim_domain = domains(0, 0);
-
-        unsigned int i_dst = (unsigned int)ceil (
-          ( r_cell - geometry->cell_dims[0] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[0] );
+        unsigned int i_dst = (unsigned int)(
+          ( ( r_cell - geometry->cell_dims[0] + 1 ) // we should make cell numbers local for SMB
+            * geometry->domains_amount[0] - 1 ) / geometry->cell_amount[0] );
 
-        unsigned int j_dst = (unsigned int)ceil (
-          ( z_cell - geometry->cell_dims[1] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[1] );
+        unsigned int j_dst = (unsigned int)(
+          ( ( z_cell - geometry->cell_dims[1] + 1 ) // we should make cell numbers local for SMB
+            * geometry->domains_amount[1] - 1 ) / geometry->cell_amount[1] );
 
         Domain *dst_domain = domains(i_dst, j_dst);
 
-- 
2.43.0


From 7973d44c45718f2aed19b304c59ab8780a50cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:02 +0000
Subject: [PATCH 23/49] fix: do not push particles to one domain from several
 threads at once

---
 src/SMB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index e2ad940..387c573 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -319,6 +319,9 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
+                    // several threads could send particles to the same domain
+#pragma omp critical (particles_jump)
+                    {
                     ++j_c;
 
                     Domain *dst_domain = __domains(i_dst, j_dst);
@@ -333,6 +336,7 @@ void SMB::particles_runaway_collector ()
                                    << i_dst << "," << j_dst << "''";
                         (**pd).particles.push_back(o);
                       }
+                    }
 
                     res = true;
                   }
-- 
2.43.0


From 46d36540f8c68ad88252a3a49b2e001d3c79d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:03 +0000
Subject: [PATCH 24/49] fix: keep one cell size in domains of different cell
 amounts

---
 src/SMB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 387c573..159e75f 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -94,7 +94,7 @@ SMB::SMB ( Cfg* _cfg, Geometry *_geometry, TimeSim *_time,
 
 #ifdef ENABLE_PML
       Geometry *geom_domain = new Geometry (
-        { geometry->size[0] / r_domains, geometry->size[1] / z_domains},
+        { geometry->cell_size[0] * (top_r - bot_r), geometry->cell_size[1] * (right_z - left_z) },
         { geometry->global_size[0], geometry->global_size[1] }, // global size
         { bot_r, left_z, top_r, right_z },
         { 0, pml_l_z0, pml_l_rwall, pml_l_zwall, },
@@ -110,8 +110,8 @@ SMB::SMB ( Cfg* _cfg, Geometry *_geometry, TimeSim *_time,
       // /WORKAROUND
 #else
       Geometry *geom_domain = new Geometry (
-        { geometry->size[0] / r_domains,
-          geometry->size[1] / z_domains },
+        { geometry->cell_size[0] * (top_r - bot_r),
+          geometry->cell_size[1] * (right_z - left_z) },
         { bot_r, left_z, top_r, right_z },
         { wall_r0,
           wall_z0,
-- 
2.43.0


From ca1cb1ea5d28bb51f157d24f6ec2d63e68e09c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 25/49] fix: round global cell amount, do not lose a cell by
 floating point truncation

---
 include/geometry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 7859774..e2ead30 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -18,6 +18,7 @@
 #ifndef _GEOMETRY_HPP_
 #define _GEOMETRY_HPP_
 
+#include <cmath>
 #include <vector>
 
 #include "defines.hpp"
@@ -68,7 +69,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back((size_t)std::round(global_size[i] / cell_size[i]));
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From 74b30501750c42ffd9a35c4a3ce88ba14ace8bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:18 +0000
Subject: [PATCH 26/49] fix: turn particle velocity to the local basis before
 it is reflected from walls

---
 src/SMB.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 159e75f..086332d 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -1311,10 +1311,11 @@ void SMB::advance_particles()
       sim_domain->update_particles_coords();
       sim_domain->particles_back_position_to_rz();
 
-      sim_domain->reflect();
-
       sim_domain->particles_back_velocity_to_rz();
 
+      // reverse velocity components of the local basis
+      sim_domain->reflect();
+
       sim_domain->bind_cell_numbers();
     }
   particles_runaway_collector();
-- 
2.43.0


From 1c2077f4681be543643a5457211be3426990729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 27/49] fix: absorb in every cell of far layers, choose cells
 of the near layer by number

---
 src/maxwellSolver/maxwellSolverYee.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index 45f6d21..585bf54 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -76,7 +76,7 @@ void MaxwellSolverYee::set_pml()
   if (geometry->pml_size[2] != 0)
     for(int i = 0; i < geometry->cell_amount[0]; i++)
       for(int k = 0; k < geometry->cell_amount[1]; k++)
-        if (geometry->dist_x_to_end(i) < lenght_sigma_extern)
+        if (geometry->dist_x_to_end(i) <= lenght_sigma_extern)
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_extern, 2)
@@ -89,7 +89,7 @@ void MaxwellSolverYee::set_pml()
     for(int k = 0; k < geometry->cell_amount[1]; k++)
       for(int i = 0; i < geometry->cell_amount[0]; i++)
         // z=0 wall
-        if (cell_size_z * k + longitudinal_cell_offset < lenght_sigma_left)
+        if (k + geometry->cell_dims[1] < geometry->pml_size[1])
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_left, 2)
@@ -99,7 +99,7 @@ void MaxwellSolverYee::set_pml()
   if (geometry->pml_size[3] != 0)
     for(int k = 0; k < geometry->cell_amount[1]; k++)
       for(int i = 0; i < geometry->cell_amount[0]; i++)
-        if (geometry->dist_y_to_end(k) < lenght_sigma_right)
+        if (geometry->dist_y_to_end(k) <= lenght_sigma_right)
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_right, 2)
-- 
2.43.0


From 9312584b19cb3d22d950de42f45b6ff83952aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 28/49] fix: number output slices by the nearest time step

---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..bf2a003 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..af9d045 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..78b0d9a 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = round(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From c7722abd76495453965793989717637cdff45ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 29/49] fix: do not create empty writers for domains that only
 touch the probe

---
 src/outController.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index af9d045..3ea75a9 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,10 +89,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
                && prb_size[3] <= domain_size[3]
-- 
2.43.0


From 5f2652020b7301ccee29504d82c10e79104c1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 30/49] fix: allocate dimensions of column, row and dot probes

---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..81695d5 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -257,6 +257,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("col") == 0 )
     {
       p_p.shape = 1;
+      p_p.dims.resize(4);
       p_p.dims[0] = 0;
       p_p.dims[2] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
@@ -270,6 +271,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("row") == 0 )
     {
       p_p.shape = 2;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[1] = 0;
@@ -283,6 +285,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("dot") == 0 )
     {
       p_p.shape = 3;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
-- 
2.43.0


From 368d1b1f4c3da36f25636b232b4af8598fa9d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 31/49] fix: exchange density of diagonal neighbours before it
 is written

---
 src/outController.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 3ea75a9..e6915a6 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -483,11 +483,22 @@ void OutController::init_datasets()
               speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
           }
 
-          // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-          // {
-          //   Domain *dst_domain = smb->domains(i + 1, j + 1);
-          //   sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          // }
+          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1
+              && prb->component.compare("density") == 0)
+          {
+            Domain *diag_domain = smb->domains(i + 1, j + 1);
+            Domain *next_r_domain = smb->domains(i + 1, j);
+            Domain *next_z_domain = smb->domains(i, j + 1);
+
+            // all domains have the same list of species
+            for (size_t k = 0; k < sim_domain->species_p.size(); ++k)
+              if (prb->specie.compare(sim_domain->species_p[k]->name) == 0)
+              {
+                sim_domain->species_p[k]->density_map.overlay_xy(diag_domain->species_p[k]->density_map);
+                // the other diagonal of the same four domains
+                next_r_domain->species_p[k]->density_map.overlay_yx(next_z_domain->species_p[k]->density_map);
+              }
+          }
         }
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
-- 
2.43.0


From abd6761e15d842407f48b1abf1a4447827ced5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 32/49] fix: do not overwrite exchanged density by probes of
 other maps

---
 src/outController.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/outController.cpp b/src/outController.cpp
index e6915a6..954d102 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -17,6 +17,8 @@
 
 #include "outController.hpp"
 
+#include <algorithm>
+
 #ifdef ENABLE_HDF5
 OutController::OutController ( HighFive::File* _file,
                                Geometry *_geometry, TimeSim *_time,
@@ -45,6 +47,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
   // initialize probes
   probes = _probes;
 
+  // other maps recalculate density of the specie, so the exchanged one should be prepared after them
+  stable_partition ( probes.begin(), probes.end(),
+                     [] (const probe &p) { return p.component.compare("density") != 0; } );
+
   // setup probes for every domain
   for (auto prb = probes.begin(); prb != probes.end(); ++prb)
   {
-- 
2.43.0


From 2829c0811e92ff5202bd4eeac6cef9d3fc3bcf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 33/49] fix: longitudinal cell number of injected beam
 particles is taken from their longitude

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..aedef1e 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -134,7 +134,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From 9b41a390b8abc1e3f8ea15ee44265a756ab98bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 34/49] fix: every domain goes on to the next bunch of a beam,
 not only the first one

---
 src/beamP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index aedef1e..6d42225 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -146,11 +146,11 @@ void BeamP::inject()
     }
 
     // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
+    if (time->current > bunch_finish_time)
     {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+      if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+          && geometry->cell_dims[0] == 0)
+        LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
       ++current_bunch_number;
     }
   }
-- 
2.43.0


From 0cf52fc3747a164de195fb194e5a9f7cfc7d5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 35/49] fix: macroparticles of a beam are divided among its
 bunches without rounding

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index 6d42225..68cb21d 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -63,7 +63,7 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
   double macro_normalizer = domain_radius / radius;
 
-  bunch_macro_amount = macro_amount / bunches_amount * macro_normalizer;
+  bunch_macro_amount = (double)macro_amount / bunches_amount * macro_normalizer;
 
   macro_per_step_to_inject = bunch_macro_amount * velocity * time->step / bunch_length;
 }
-- 
2.43.0


From 07004a878ad06e152ee601c4ee8f808437e344cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 36/49] fix: a build with Coulomb collisions compiles and runs
 them

---
 include/domain.hpp | 2 +-
 src/domain.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/domain.hpp b/include/domain.hpp
index 1e8a764..fdb99ff 100644
--- a/include/domain.hpp
+++ b/include/domain.hpp
@@ -65,7 +65,7 @@
 #include "collisions/collisionsTA77S.hpp"
 #elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
 #include "collisions/collisionsSK98.hpp"
-#elif defined(SWITCH_COULOMB_COLLISIONS_P12
+#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
 #include "collisions/collisionsP12.hpp"
 #endif
 #endif
diff --git a/src/domain.cpp b/src/domain.cpp
index a15bbeb..6ede8cc 100644
--- a/src/domain.cpp
+++ b/src/domain.cpp
@@ -199,6 +199,6 @@ void Domain::dump_particle_positions_to_old()
 #ifdef ENABLE_COULOMB_COLLISIONS
 void Domain::collide()
 {
-  collisions->run();
+  (*collisions)();
 }
 #endif // ENABLE_COULOMB_COLLISIONS
-- 
2.43.0


From a9eeb38399e30865d4b2d6c624797d7ac70391fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 37/49] fix: collisions turn the second particle of a pair
 against the first one

---
 src/collisions/collisionsTA77S.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 83d1e42..8f16a26 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -181,9 +181,9 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   double vphi_a_new = vphi_a + m_ab/mass_a * d_uy;
   double vz_a_new = vz_a + m_ab/mass_a * d_uz;
 
-  double vr_b_new = vr_b + m_ab/mass_b * d_ux2;
-  double vphi_b_new = vphi_b + m_ab/mass_b * d_uy2;
-  double vz_b_new = vz_b + m_ab/mass_b * d_uz2;
+  double vr_b_new = vr_b - m_ab/mass_b * d_ux2;
+  double vphi_b_new = vphi_b - m_ab/mass_b * d_uy2;
+  double vz_b_new = vz_b - m_ab/mass_b * d_uz2;
 
   // set new velocity components
   if (swap)
-- 
2.43.0


From d3799943114fde849ab12dfb5de859ceda1cebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 38/49] fix: collisions turn the relative velocity of a pair
 and do not stretch it

---
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 8f16a26..63fab7f 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -144,11 +144,11 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   {
     d_ux = u * sin_Theta * cos_Phi;
     d_uy = u * sin_Theta * sin_Phi;
-    d_uz = -u * (1 - cos_Theta);
+    d_uz = -uz * (1 - cos_Theta);
 
     d_ux2 = u * sin_Theta2 * cos_Phi2;
     d_uy2 = u * sin_Theta2 * sin_Phi2;
-    d_uz2 = -u * (1 - cos_Theta2);
+    d_uz2 = -uz * (1 - cos_Theta2);
   }
   else
   {
@@ -160,7 +160,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta * sin_Phi
       - uy * (1 - cos_Theta);
 
-    d_uz = u_p * sin_Theta * cos_Phi
+    d_uz = -u_p * sin_Theta * cos_Phi
       - uz * (1 - cos_Theta);
 
     ////
@@ -173,7 +173,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta2 * sin_Phi2
       - uy * (1 - cos_Theta2);
 
-    d_uz2 = u_p * sin_Theta2 * cos_Phi2
+    d_uz2 = -u_p * sin_Theta2 * cos_Phi2
       - uz * (1 - cos_Theta2);
   }
 
-- 
2.43.0


From 290bd93e22af4332dd3635641e91a7ae5330a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 39/49] fix: a cell without plasma does not stop the collisions
 in the rest of its row

---
 src/collisions/collisionsP12.cpp   | 8 ++++----
 src/collisions/collisionsSK98.cpp  | 8 ++++----
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f7ba7e5..308a999 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -348,10 +348,10 @@ void CollisionsP12::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0776866..f72f81a 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -258,10 +258,10 @@ void CollisionsSK98::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 63fab7f..df0b2ee 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -234,10 +234,10 @@ void CollisionsTA77S::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
-- 
2.43.0


From 297a727058cc003f133d2dd52984059babec9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 40/49] fix: every particle of the larger group meets one of
 the smaller group

---
 src/collisions/collisionsTA77S.cpp | 32 +++++++++++++-----------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index df0b2ee..0160bd9 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -346,19 +346,17 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
-
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
+        unsigned int ions_2nd_group = c_i * els_2nd_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -369,7 +367,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -381,19 +379,17 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
-
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
+        unsigned int els_2nd_group = c_i * ions_2nd_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -404,7 +400,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
-- 
2.43.0


From 2af8c48ed2d74a2209bf77d76a898683128b2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 41/49] fix: external electric field profile is chosen by its
 name

std::string::compare() returns zero on equality; the electric branch tested
for inequality, so any profile but "none" switched the field off.
---
 src/maxwellSolver/externalFields.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 438e2d6..620d979 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -48,20 +48,20 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
     z_end = geometry->cell_amount[1];
 
   // set electric and magnetic profiles
-  if ( _el_field_profile.compare("none") )
+  if ( _el_field_profile.compare("none") == 0 )
     e_profile_enum = 0;
-  else if ( _el_field_profile.compare("const_r") )
+  else if ( _el_field_profile.compare("const_r") == 0 )
     e_profile_enum = 1;
-  else if ( _el_field_profile.compare("const_phi") )
+  else if ( _el_field_profile.compare("const_phi") == 0 )
     e_profile_enum = 2;
-  else if ( _el_field_profile.compare("const_z") )
+  else if ( _el_field_profile.compare("const_z") == 0 )
     e_profile_enum = 3;
-  else if ( _el_field_profile.compare("linerad_r") )
+  else if ( _el_field_profile.compare("linerad_r") == 0 )
     e_profile_enum = 4;
-  else if ( _el_field_profile.compare("linerad_z") )
+  else if ( _el_field_profile.compare("linerad_z") == 0 )
     e_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no electric field profile, named ``" << _el_field_profile;
 
   if ( _magn_field_profile.compare("none") == 0 )
     m_profile_enum = 0;
@@ -76,7 +76,7 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
   else if ( _magn_field_profile.compare("linerad_z") == 0 )
     m_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _magn_field_profile;
 
   e_field_params = _el_field_params;
   m_field_params = _magn_field_params;
-- 
2.43.0


From 91d6d2cf17e0a7ea9b37cb06abdf57599a3bd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 42/49] fix: setting one external field keeps the other

The setter of the magnetic field zeroed the electric one and vice versa, so
that with both configured only the magnetic field was applied.
---
 src/maxwellSolver/externalFields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 620d979..321c947 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -229,10 +229,6 @@ void ExternalFields::set_pml()
 
 void ExternalFields::set_el_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_h = 0;
-  field_h.overlay_set(0);
-
   // set electric field's overlay to 0
   field_e = 0; // reset electric field
   field_e.overlay_set(0);
@@ -278,12 +274,8 @@ void ExternalFields::set_el_field_homogenous_z ()
 
 void ExternalFields::set_magn_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_e = 0;
-  field_e.overlay_set(0);
-
-  // set electric field's overlay to 0
-  field_h = 0; // reset electric field
+  // set magnetic field's overlay to 0
+  field_h = 0; // reset magnetic field
   field_h.overlay_set(0);
 
   double dr = geometry->cell_size[0];
-- 
2.43.0


From 4531150fd8ca234f9332692239c224bdd90f114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:55 +0000
Subject: [PATCH 43/49] fix: external fields reach the halo next to
 neighbouring domains

The halo of the external field was left at zero, and nothing exchanges it, so
particles in the outer cells of a domain felt a part of the field only, and the
field felt depended on the number of domains.
---
 src/maxwellSolver/externalFields.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 321c947..1a0a829 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -251,9 +251,15 @@ void ExternalFields::set_el_field_homogenous_z ()
     for (unsigned int i = r_begin; i < r_end; ++i)
       field_e[2].set(i, 0, 0);
 
-  // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  // regular case. Halo next to neighbouring domains holds the field too
+  int o_s = field_e[2].o_s;
+  int r_first = geometry->walls[0] ? (int)r_begin : -o_s;
+  int z_first = geometry->walls[1] ? (int)z_begin : -o_s;
+  int r_last = geometry->walls[2] ? (int)r_end : (int)r_end + o_s;
+  int z_last = geometry->walls[3] ? (int)z_end : (int)z_end + o_s;
+
+  for (int i = r_first; i < r_last; i++)
+    for (int k = z_first; k < z_last; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
@@ -296,9 +302,15 @@ void ExternalFields::set_magn_field_homogenous_z ()
     for (unsigned int i = r_begin; i < r_end; ++i)
       field_h[2].set(i, 0, 0);
 
-  // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  // regular case. Halo next to neighbouring domains holds the field too
+  int o_s = field_h[2].o_s;
+  int r_first = geometry->walls[0] ? (int)r_begin : -o_s;
+  int z_first = geometry->walls[1] ? (int)z_begin : -o_s;
+  int r_last = geometry->walls[2] ? (int)r_end : (int)r_end + o_s;
+  int z_last = geometry->walls[3] ? (int)z_end : (int)z_end + o_s;
+
+  for (int i = r_first; i < r_last; i++)
+    for (int k = z_first; k < z_last; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
-- 
2.43.0


From 71a228f2dd4f156266af0893ed152e1fe2b6bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 44/49] fix: groups of pairs of SK98 and P12 collisions are
 counted in whole numbers

---
 src/collisions/collisionsP12.cpp  | 32 ++++++++++++++-----------------
 src/collisions/collisionsSK98.cpp | 32 ++++++++++++++-----------------
 2 files changed, 28 insertions(+), 36 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 308a999..573ba2c 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -460,19 +460,17 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
-
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
+        unsigned int ions_2nd_group = c_i * els_2nd_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -483,7 +481,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -495,19 +493,17 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
-
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
+        unsigned int els_2nd_group = c_i * ions_2nd_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -518,7 +514,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index f72f81a..8124ee2 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -370,19 +370,17 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
-
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
+        unsigned int ions_2nd_group = c_i * els_2nd_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -393,7 +391,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -405,19 +403,17 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
-
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
+        unsigned int els_2nd_group = c_i * ions_2nd_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -428,7 +424,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
-- 
2.43.0


From ad95e78617838edb310a3f42bf0c4a3a025b6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 45/49] fix: relative speed of a pair takes both speeds of the
 center-of-mass frame

---
 src/collisions/collisionsP12.cpp  | 2 +-
 src/collisions/collisionsSK98.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 573ba2c..af9e370 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -135,7 +135,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   v_a_cm = p_a_cm / (mass_a * gamma_a_cm);
   v_b_cm = p_b_cm / (mass_b * gamma_b_cm);
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 8124ee2..fd4ced2 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -133,7 +133,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   vector3d<double> p_cm; // (0, 0, p_a_cm.length());
   p_cm = p_a_cm;
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
-- 
2.43.0


From 3620c51fa4682a32e7388989c2bd4186c504ed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 46/49] fix: boost of a pair whose total momentum is zero is
 not a number no more

---
 src/collisions/collisionsP12.cpp  | 6 +++---
 src/collisions/collisionsSK98.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index af9e370..e3e4a48 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -118,7 +118,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * gamma_cm * gamma_cm / ( gamma_cm + 1 );
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -255,7 +255,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
-    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * gamma_cm * gamma_cm / ( gamma_cm + 1 );
     p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
     v_a_prime = p_a_prime / mass_a;
@@ -272,7 +272,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     p_b_prime_cm[2] = -p_a_prime_cm[2];
 
     p_b_prime = p_b_prime_cm;
-    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * gamma_cm * gamma_cm / ( gamma_cm + 1 );
     p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
     v_b_prime = p_b_prime / mass_b;
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index fd4ced2..b96ccf0 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -111,7 +111,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * gamma_cm * gamma_cm / ( gamma_cm + 1 );
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -198,11 +198,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
 
   vector3d<double> p_a_prime, p_b_prime;
   p_a_prime = p_a_prime_cm;
-  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * gamma_cm * gamma_cm / ( gamma_cm + 1 );
   p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
   p_b_prime = p_b_prime_cm;
-  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * gamma_cm * gamma_cm / ( gamma_cm + 1 );
   p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
   // calculate velocities
-- 
2.43.0


From 32b7dc1622a38ac3a0e9232d187f31ef4fe53c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 47/49] fix: a pair moving along z is scattered too

---
 src/collisions/collisionsP12.cpp  | 24 +++++++++++++++++-------
 src/collisions/collisionsSK98.cpp | 24 +++++++++++++++++-------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index e3e4a48..92140bf 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -238,13 +238,23 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double p_a_cm_abs = p_a_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_a_cm[0] * p_a_cm[0] + p_a_cm[1] * p_a_cm[1]);
 
-  p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[0] * cos_xi_cm;
-  p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[1] * cos_xi_cm;
-  p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
+  // momentum along z has no direction across it
+  if (p_cm_prp == 0)
+  {
+    p_a_prime_cm[0] = p_a_cm_abs * sin_xi_cm * cos_phi_cm;
+    p_a_prime_cm[1] = p_a_cm_abs * sin_xi_cm * sin_phi_cm;
+    p_a_prime_cm[2] = p_a_cm[2] * cos_xi_cm;
+  }
+  else
+  {
+    p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[0] * cos_xi_cm;
+    p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[1] * cos_xi_cm;
+    p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
+  }
 
   // find deflection probability
   double U_defl = math::random::uniform();
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index b96ccf0..9725341 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -183,13 +183,23 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double p_cm_abs = p_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_cm[0] * p_cm[0] + p_cm[1] * p_cm[1]);
 
-  d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[0] * ( 1 - cos_theta_cm);
-  d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[1] * ( 1 - cos_theta_cm);
-  d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
+  // momentum along z has no direction across it
+  if (p_cm_prp == 0)
+  {
+    d_p[0] = p_cm_abs * sin_theta_cm * cos_phi;
+    d_p[1] = p_cm_abs * sin_theta_cm * sin_phi;
+    d_p[2] = -p_cm[2] * ( 1 - cos_theta_cm );
+  }
+  else
+  {
+    d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[0] * ( 1 - cos_theta_cm);
+    d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[1] * ( 1 - cos_theta_cm);
+    d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
+  }
 
   // get p_a_prime_cm and p_b_prime_cm --- COM frame
   vector3d<double> p_a_prime_cm, p_b_prime_cm;
-- 
2.43.0


From f6780ddbd0fea768b949fde699edea703044ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 48/49] fix: cosine of the scattering angle stays in its range

---
 src/collisions/collisionsP12.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 92140bf..00a6e7d 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -227,6 +227,9 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
     cos_xi_cm = 2 * U - 1;
 
+  // cosine can not leave its range, even for rare small U
+  cos_xi_cm = min(1., max(-1., cos_xi_cm));
+
   double sin_xi_cm = algo::common::sq_rt ( 1 - pow(cos_xi_cm, 2) );
 
   // find Phi angle
-- 
2.43.0


From 1793bf0d9e5999668546e05ae94d22e0d4bfac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 49/49] fix: particle of a swapped pair is deflected by its own
 probability

---
 src/collisions/collisionsP12.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 00a6e7d..2d9e657 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -308,14 +308,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     // deflect particles only with some probability
     // according to rejection scheme
-    if (U_defl < w_a)
+    if (U_defl < w_b)
     {
       P_VEL_R(pa) = v_b_prime[0];
       P_VEL_PHI(pa) = v_b_prime[1];
       P_VEL_Z(pa) = v_b_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (U_defl < w_a)
     {
       P_VEL_R(pb) = v_a_prime[0];
       P_VEL_PHI(pb) = v_a_prime[1];
-- 
2.43.0

