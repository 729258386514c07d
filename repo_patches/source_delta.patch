From 7acf4d9a0f470501dd36e2c9b826285feacb34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 01/11] fix: initialize the centroid before accumulating vertex
 coordinates

Generic::centroid accumulated into the caller's memory without clearing it, and
Mesh::getCentroidsEl passes uninitialized memory.
---
 tools/edge_v/src/geom/Generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..da78a41 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,10 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
+    o_cen[l_di] = 0;
+  }
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From 08034b0c798263878dd31154f6288069b1ac4c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:01 +0000
Subject: [PATCH 02/11] fix: order the edge weights of the partitioner as the
 dual graph's edges

---
 tools/edge_v/src/mesh/Partition.h | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/tools/edge_v/src/mesh/Partition.h b/tools/edge_v/src/mesh/Partition.h
index 7cd710f..99027e4 100644
--- a/tools/edge_v/src/mesh/Partition.h
+++ b/tools/edge_v/src/mesh/Partition.h
@@ -26,6 +26,8 @@
 
 #include "Mesh.h"
 #include <algorithm>
+#include <limits>
+#include <vector>
 
 namespace edge_v {
   namespace mesh {
@@ -176,22 +178,26 @@ class edge_v::mesh::Partition {
           o_vwgt[l_el] *= 2;
         }
 
+        // get the adjacent elements, sorted by element id (matches the dual graph)
+        std::vector< t_idx > l_ads;
         for( t_idx l_fa = 0; l_fa < l_nElFas; l_fa++ ) {
           t_idx l_ad = i_elFaEl[l_el*l_nElFas + l_fa];
+          if( l_ad != std::numeric_limits< t_idx >::max() ) l_ads.push_back( l_ad );
+        }
+        std::sort( l_ads.begin(), l_ads.end() );
 
-          if( l_ad != std::numeric_limits< t_idx >::max() ) {
-            // larger time group elements have to sent twice the amount
-            // -> comm volume is given by frequency of min time group
-            unsigned short l_minTg = std::min( i_elTg[l_el],
-                                               i_elTg[l_ad] );
-
-            // set edge weight
-            for( unsigned short l_tg = l_minTg; l_tg < l_tgMax; l_tg++ ) {
-              o_adjwgt[l_adId] *= 2;
-            }
+        for( t_idx l_ad : l_ads ) {
+          // larger time group elements have to sent twice the amount
+          // -> comm volume is given by frequency of min time group
+          unsigned short l_minTg = std::min( i_elTg[l_el],
+                                             i_elTg[l_ad] );
 
-            l_adId++;
+          // set edge weight
+          for( unsigned short l_tg = l_minTg; l_tg < l_tgMax; l_tg++ ) {
+            o_adjwgt[l_adId] *= 2;
           }
+
+          l_adId++;
         }
       }
     }
-- 
2.43.0


From 429fddc1f56a1b4a1a76bc302df7488d7b9ddd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:19 +0000
Subject: [PATCH 03/11] fix: forward the gravity constant to the f-wave
 eigenvalues

---
 src/impl/swe/solvers/Fwave.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/Fwave.hpp b/src/impl/swe/solvers/Fwave.hpp
index 6597f67..3a215d8 100644
--- a/src/impl/swe/solvers/Fwave.hpp
+++ b/src/impl/swe/solvers/Fwave.hpp
@@ -222,7 +222,8 @@ class edge::swe::solvers::Fwave {
       // compute eigenvalues
       evs( i_hL,   i_hR,
            l_uL,   l_uR,
-           l_lam );
+           l_lam,
+           i_g );
 
       // compute jumps in fluxes
       for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) {
-- 
2.43.0


From ab139444f7a450b8e7dea6679202fc239e6cfe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:19 +0000
Subject: [PATCH 04/11] fix: consider all momentum components in the CFL time
 step of the shallow water equations

---
 src/impl/swe/solvers/FiniteVolume.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/FiniteVolume.hpp b/src/impl/swe/solvers/FiniteVolume.hpp
index 08afea7..bb1f235 100644
--- a/src/impl/swe/solvers/FiniteVolume.hpp
+++ b/src/impl/swe/solvers/FiniteVolume.hpp
@@ -193,8 +193,14 @@ class edge::swe::solvers::FiniteVolume {
         // compute minum CFL associated time step for all concurrent runs
         double l_cDt = std::numeric_limits< double >::max();
         for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ ) {
+          // magnitude of the momentum
+          double l_hu = 0;
+          for( unsigned short l_di = 0; l_di < TL_N_DIS; l_di++ )
+            l_hu += double(i_dofs[l_el][1+l_di][0][l_ru]) * i_dofs[l_el][1+l_di][0][l_ru];
+          l_hu = std::sqrt( l_hu );
+
           l_cDt = std::min( l_cDt, computeCflTimeStep( i_dofs[l_el][0][0][l_ru],
-                                                       i_dofs[l_el][1][0][l_ru],
+                                                       l_hu,
                                                        i_charsEl[l_el].inDia ) );
         }
 
-- 
2.43.0


From b9db683711763a1742f005eb5f2a66ac3f7177fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:36 +0000
Subject: [PATCH 05/11] fix: set invalid sparse links for undefined adjacencies
 (single sparse type)

---
 src/data/SparseEntities.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/SparseEntities.hpp b/src/data/SparseEntities.hpp
index 6005d1c..a9bb7f2 100644
--- a/src/data/SparseEntities.hpp
+++ b/src/data/SparseEntities.hpp
@@ -540,8 +540,11 @@ class edge::data::SparseEntities {
           for( unsigned short l_ae = 0; l_ae < i_nAdjPerEn; l_ae++ ) {
             TL_T_INT_LID l_aeId = i_enEn[ l_de * i_nAdjPerEn + l_ae ];
 
-            // ignore undefined adjacencies
-            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() ) continue;
+            // undefined adjacencies are invalid
+            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() ) {
+              o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
+              continue;
+            }
 
             if( ( i_charsAdj[l_aeId].spType & i_spType ) == i_spType ) o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = l_adjDeToSp[l_aeId];
             else                                                       o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
-- 
2.43.0


From c0e9b181e4cf7b07d394fa74a0df535501ac15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 06/11] fix: evaluate all modes of the time prediction for
 anelastic setups

---
 src/impl/seismic/kernels/TimePred.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/impl/seismic/kernels/TimePred.hpp b/src/impl/seismic/kernels/TimePred.hpp
index f0b3d04..7d2c7e4 100644
--- a/src/impl/seismic/kernels/TimePred.hpp
+++ b/src/impl/seismic/kernels/TimePred.hpp
@@ -145,8 +145,11 @@ class edge::seismic::kernels::TimePred {
           // update scalar
           l_scalar *= i_pts[l_pt] / l_de;
 
+          // anelastic source terms add contributions to all modes of the elastic derivatives
+          unsigned short l_nCpMds = (TL_N_RMS == 0) ? CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ) : TL_N_MDS;
+
           for( unsigned short l_qt = 0; l_qt < TL_N_QTS_E; l_qt++ ) {
-            for( unsigned short l_md = 0; l_md < CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ); l_md++ ) {
+            for( unsigned short l_md = 0; l_md < l_nCpMds; l_md++ ) {
               for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ )
                 o_preDofs[l_pt][l_qt][l_md][l_ru] += l_scalar * i_der[l_de][l_qt][l_md][l_ru];
             }
-- 
2.43.0


From 0c1cef75caa7a1fa4f1dc92d852e3c70e5dca9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 07/11] fix: record receiver outputs which lie exactly one
 tolerance before the end of a time step

---
 src/io/Receivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/Receivers.cpp b/src/io/Receivers.cpp
index 5670676..075d000 100644
--- a/src/io/Receivers.cpp
+++ b/src/io/Receivers.cpp
@@ -236,7 +236,7 @@ double edge::io::Receivers::getRecvTimeRel( int_el i_spEn,
                                             double i_time,
                                             double i_dt ) {
   unsigned int l_re = m_spEnToRecv[i_spEn];
-  if( m_recvs[l_re].time > i_time-TOL.TIME && m_recvs[l_re].time < i_time+i_dt-TOL.TIME ) {
+  if( m_recvs[l_re].time > i_time-TOL.TIME && m_recvs[l_re].time <= i_time+i_dt-TOL.TIME ) {
     // determine relative dt
     double l_dt = m_recvs[l_re].time - i_time;
     EDGE_CHECK_GT( l_dt, -TOL.TIME );
-- 
2.43.0


From b426f426a06eb3a36067e397166f5a3a3756fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 08/11] fix: integrate time series correctly if both bounds are
 in the same sampling interval

---
 src/linalg/Series.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..0eb28b2 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,7 +74,7 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
+                  l_first = std::min( l_first, i_nPts-1 );
 
 
       // add contribution of the covered intervals
@@ -87,6 +87,12 @@ class edge::linalg::Series {
         }
       }
 
+      // subtract the interval if it contains both points, since it is part of the two remaining contributions below
+      if( l_first > l_last ) {
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ )
+          o_int[l_se] -= l_dxH*( i_vals[l_last][l_se] + i_vals[l_first][l_se] );
+      }
+
       // determine the case we are in
       // false: x1/x2 is outside the defined series
       // true:  x1/x2 it outside the defined series
-- 
2.43.0


From fdd4fe20e4c39d0ae865bd94249abe39bf05f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:23 +0000
Subject: [PATCH 09/11] fix: create all directories of paths with repeated
 slashes

---
 src/io/FileSystem.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/FileSystem.hpp b/src/io/FileSystem.hpp
index 192a28e..dbf9517 100644
--- a/src/io/FileSystem.hpp
+++ b/src/io/FileSystem.hpp
@@ -110,6 +110,12 @@ class edge::io::FileSystem {
 
         std::string l_dirTmp = l_dir1;
         splitPathFirst( l_dirTmp, l_dir0, l_dir1 );
+
+        // skip empty names of repeated slashes
+        while( l_dir0 == "" && l_dir1 != "" ) {
+          l_dirTmp = l_dir1;
+          splitPathFirst( l_dirTmp, l_dir0, l_dir1 );
+        }
       }
     }
 };
-- 
2.43.0


From 7cc6e974822d765ced59ad24a619131c195d35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:17 +0000
Subject: [PATCH 10/11] fix: let the traction of a failing 2D fault point in
 the direction of the shear stress

---
 src/impl/seismic/solvers/FrictionLaws.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impl/seismic/solvers/FrictionLaws.hpp b/src/impl/seismic/solvers/FrictionLaws.hpp
index 01ecfff..33afeee 100644
--- a/src/impl/seismic/solvers/FrictionLaws.hpp
+++ b/src/impl/seismic/solvers/FrictionLaws.hpp
@@ -141,9 +141,9 @@ class edge::seismic::solvers::FrictionLaws< 2, TL_N_CRUNS > {
 
       // perturb middle states and update friction coefficient
       for( unsigned short l_ru = 0; l_ru < TL_N_CRUNS; l_ru++ ) {
-        // compute traction
-        o_tr[l_ru] = o_st[l_ru] - std::abs(i_ss0[l_ru]);
-        o_tr[l_ru] = (i_ss0[l_ru] > 0) ? o_tr[l_ru] : -o_tr[l_ru];
+        // compute traction, which points in the direction of the total shear stress
+        o_tr[l_ru]  = (i_ss0[l_ru] + i_ms[2][l_ru] > 0) ? o_st[l_ru] : -o_st[l_ru];
+        o_tr[l_ru] -= i_ss0[l_ru];
 
         // fall back to middle state if the fault is locked
         o_tr[l_ru] = (o_per[l_ru]) ? o_tr[l_ru] : i_ms[2][l_ru];
-- 
2.43.0


From 7d1c3f325ee08d30855e4194c4b46414e4446937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:31 +0000
Subject: [PATCH 11/11] fix: Extrude uses coarse y-neighbor when deriving the
 minimum spacing

The minimum spacing of the coarse mesh in y-direction was derived from the
distance of the coarse vertex (l_ve+1)*m_refRatio to the fine vertex l_ve, which
gives wrong (too thick or thin) layers for non-uniform surface spacings with
coarsening levels.
---
 tools/edge_cut/src/mesh/Extrude.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index cd37b94..8e8b6eb 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -313,7 +313,7 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   // derive minimum dx and dy in the coarse mesh
   for( std::size_t l_ve = 0; l_ve < m_ny[1]-1; l_ve++ ) {
     std::size_t l_veNext = (l_ve+1) * m_refRatio;
-    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve] );
+    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve*m_refRatio] );
     m_dMin[1] = std::min( m_dMin[1], l_diff );
   }
   for( std::size_t l_ve = 0; l_ve < (m_nx[0]-m_refRatio)*m_ny[0]; l_ve+=m_ny[0]*m_refRatio ) {
-- 
2.43.0

