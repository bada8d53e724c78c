From 5f1edf2b674be3e1da7ccee3915b0c2f4f648dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:55 +0000
Subject: [PATCH 01/24] hook: let verification builds select the spline degree
 (MATTER_VERIF_SPLINEDEG)

---
 src/tools.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools.hpp b/src/tools.hpp
index 9243644..7175e98 100644
--- a/src/tools.hpp
+++ b/src/tools.hpp
@@ -18,7 +18,11 @@
 /////////////// USER PARAMETERS (GLOBAL) //////////
 typedef double T; // float or double
 // #define THREEDIM // Uncomment for 2D
+#ifdef MATTER_VERIF_SPLINEDEG
+#define SPLINEDEG MATTER_VERIF_SPLINEDEG // verification builds choose the degree on the command line
+#else
 #define SPLINEDEG 2 // Quadratic B-spline
+#endif
 // #define WARNINGS // Write more debug info to screen
 ///////////////////////////////////////////////////
 
-- 
2.43.0


From a99f5cbb7b2685e6816bd30e468696d4d5b9a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:36 +0000
Subject: [PATCH 02/24] fix: reset the plastic shear rate in every step also
 without MUSL

With the default USL order, delta_gamma was only ever overwritten by the
yielding branches, so a particle that yielded once and then unloaded kept
reporting its last shear rate.
---
 src/simulation/g2p.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 1e6ef21..12fd3a6 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -15,6 +15,8 @@ void Simulation::G2P(){
     std::fill( particles.pic.begin(),  particles.pic.end(),  TV::Zero() );
     std::fill( particles.flip.begin(), particles.flip.end(), TV::Zero() );
     std::fill( particles.Bmat.begin(), particles.Bmat.end(), TM::Zero() );
+    if (!use_musl) // otherwise done in deformationUpdate()
+        std::fill( particles.delta_gamma.begin(), particles.delta_gamma.end(), 0.0 );
 
     #pragma omp parallel num_threads(n_threads)
     {
-- 
2.43.0


From bd2a9ac86e4b0078cf96c833f68c284393c35c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:01 +0000
Subject: [PATCH 03/24] fix: stress of a VMVisc particle beyond the tension cap
 is that of its reset deformation

The capped branch reset F to a rotation but left the Hencky strain at its
trial value, so the stress of that step was still the trial stress.
---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 21f9e1f..536d936 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -188,6 +188,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (p_trial < p_min * exp(-xi * particles.eps_pl_vol[p])){
                 T delta_gamma = q_trial / f_mu_prefac;
                 T eps_pl_vol_inst = -p_trial/K;
+                hencky = TV::Zero();
                 particles.F[p] = svd.matrixU() * svd.matrixV().transpose();
                 particles.eps_pl_vol[p] += eps_pl_vol_inst;
                 particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
-- 
2.43.0


From 86f040557c0ff8f48e6642fd0674435e8b0d7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 04/24] fix: solve the mu(I) relation of DPMui with the
 effective pressure

The quadratic for the shear rate used the trial pressure in its linear term
while friction and viscosity use the pressure above the (shifted) tip. With
cohesion or a volume correction the result violated the mu(I) relation and
could even reverse the deviatoric stress.
---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 536d936..6a08dfe 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -437,7 +437,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 T p_special = p_trial+p_shift - p_tip + stress_tolerance; // p_special is positive.
 
                 T fac_a = f_mu_prefac * dt; // always positive
-                T fac_b = p_trial*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
+                T fac_b = p_special*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
                 T fac_c = -(q_trial-q_yield) * fac_Q * std::sqrt(p_special); // always negative 
 
                 // this is gamma_dot:
-- 
2.43.0


From 3b31eb3ef753d9bc8faa352a04d48245f61468a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:19 +0000
Subject: [PATCH 05/24] fix: keep the effective pressure of MCCMui positive

With implicit hardening, the return mapping clamps p to the tensile tip of a
surface that is larger than the one recomputed from the clamped state, so
p + beta*p_c could become negative and its root turned the particle's state
into NaN.
---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 6a08dfe..12f87f1 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -511,7 +511,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     else if (hardening_law == HardeningLaw::SinhImpl){
                         p_c = std::max( K * std::sinh(-xi*particles.eps_pl_vol[p] + std::asinh(p0/K)) , p_stress + stress_tolerance );
                     }
-                    T p_special = p_stress + beta * p_c + stress_tolerance; // always larger than 0
+                    T p_special = std::max(p_stress + beta * p_c, T(0)) + stress_tolerance; // always larger than 0
 
                     T fac_a = f_mu_prefac * dt; // always positive
 
-- 
2.43.0


From ba2b1ae6d47f05f607c7eeb8f49f0c8dfc1e5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:19 +0000
Subject: [PATCH 06/24] fix: avoid cancellation when solving for the mu(I)
 shear rate

For a small overstress the root (-b + sqrt(b^2 - 4ac))/2a cancelled to zero
(or a wrong value), giving NaN viscosity and a violated mu(I) relation.
---
 src/simulation/plasticity.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 12f87f1..77969ef 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -441,7 +441,8 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 T fac_c = -(q_trial-q_yield) * fac_Q * std::sqrt(p_special); // always negative 
 
                 // this is gamma_dot:
-                T delta_gamma = (-fac_b + std::sqrt(fac_b*fac_b - 4*fac_a*fac_c) ) / (2*fac_a); // always if because a>0 and c<0
+                T disc = std::sqrt(fac_b*fac_b - 4*fac_a*fac_c);
+                T delta_gamma = (fac_b > 0) ? -2*fac_c / (fac_b + disc) : (-fac_b + disc) / (2*fac_a); // always positive because a>0 and c<0
 
                 T mu_i = mu_1 + (mu_2 - mu_1) / (fac_Q * std::sqrt(p_special) / delta_gamma + 1.0);
                 particles.muI[p]       = mu_i;
@@ -519,7 +520,8 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
 
                     T fac_c = -(q_trial-q_stress) * fac_Q * std::sqrt(p_special); // always negative
 
-                    T gamma_dot_S = (-fac_b + std::sqrt(fac_b*fac_b - 4*fac_a*fac_c) ) / (2*fac_a); // always positive because a>0 and c<0
+                    T disc = std::sqrt(fac_b*fac_b - 4*fac_a*fac_c);
+                    T gamma_dot_S = (fac_b > 0) ? -2*fac_c / (fac_b + disc) : (-fac_b + disc) / (2*fac_a); // always positive because a>0 and c<0
 
                     q_stress = std::max(q_stress, q_trial - f_mu_prefac * dt * gamma_dot_S); // always smaller than q_trial
             
-- 
2.43.0


From 64a64fc5040c492ac53ab119581611e2f8de93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:43 +0000
Subject: [PATCH 07/24] fix: implicit Cam-Clay return mapping stays finite when
 the surface collapses

When the preconsolidation pressure drops below the 1e-4 threshold of the
mid-point test, p may be outside the surface there and q became NaN. Leave
the loop instead: the code after it clamps p and computes the same q.
---
 .../mcc_rma_implicit_exponential_onevar.hpp                | 7 +------
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp    | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 46c948f..9fe04d7 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -68,12 +68,7 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < 1e-4) {
             // if p == midpoint then we map q to top of yield surface since no plastic change
-            q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
-            
-            // rescale values
-            q *= p0_t;
-            p *= p0_t;
-            return true;
+            break; // q is computed after the loop, where p is also kept on the surface (which may have become smaller than this threshold)
         }
 
         p = (epv - epv_t) * K + p_t;  // compute current p value
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 3a3fea3..62dc333 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -63,12 +63,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < T(1.e-4)) {
             // if p_t == midpoint then we map q to top of yield surface since no plastic change
-            q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
-
-            // rescale values
-            p *= p0_t;
-            q *= p0_t;
-            return true;
+            break; // q is computed after the loop, where p is also kept on the surface (which may have become smaller than this threshold)
         }
 
         p = (epv - epv_t) * K + p_t;  // compute current p value
-- 
2.43.0


From 071a2c50e4e1fee3282671d0f94dce3ccaf6886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:18 +0000
Subject: [PATCH 08/24] fix: 3D plate friction reduces both tangential velocity
 components by the same factor

The second component was computed from the already reduced first one, so
friction rotated the tangential velocity and changed its magnitude by the
wrong amount.
---
 src/simulation/boundary_collision.cpp | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 227815e..df55977 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -114,8 +114,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T reduction = 1 - fric_vel_n / vel_t;
+                        vx_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (y) must be set to zero
@@ -136,8 +137,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T reduction = 1 - fric_vel_n / vel_t;
+                        vy_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (x) must be set to zero
@@ -158,8 +160,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T reduction = 1 - fric_vel_n / vel_t;
+                        vx_rel *= reduction;
+                        vy_rel *= reduction;
                     }
 
                     // normal component (z) must be set to zero
@@ -189,8 +192,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T reduction = 1 - fric_vel_n / vel_t;
+                        vx_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (y) must be set to zero
@@ -210,8 +214,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T reduction = 1 - fric_vel_n / vel_t;
+                        vy_rel *= reduction;
+                        vz_rel *= reduction;
                     }
 
                     // normal component (x) must be set to zero
@@ -231,8 +236,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T reduction = 1 - fric_vel_n / vel_t;
+                        vx_rel *= reduction;
+                        vy_rel *= reduction;
                     }
 
                     // normal component (z) must be set to zero
-- 
2.43.0


From b39eed2a0173c28872fe377e61b5640e1378177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:18 +0000
Subject: [PATCH 09/24] fix: normal of ObjectGround in 3D has a zero
 z-component

It was left uninitialised.
---
 src/objects/object_ground.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/objects/object_ground.hpp b/src/objects/object_ground.hpp
index 55b8d10..7169d4f 100644
--- a/src/objects/object_ground.hpp
+++ b/src/objects/object_ground.hpp
@@ -26,9 +26,8 @@ public:
 
     TV normal(const TV& X_in) const override {
 
-        TV n;
-        
-        n(0) = 0;
+        TV n = TV::Zero();
+
         n(1) = 1;
 
         return n;
-- 
2.43.0


From 85bbfd8996c8daf1eda6bce06a599cbdc377c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:09 +0000
Subject: [PATCH 10/24] fix: grid covers particles that moved by a whole number
 of cells

The expansion of the grid was rounded down below exact multiples of dx, so
that the outermost particle's stencil reached one node beyond the grid
(out-of-bounds read of node positions, wrong velocities).
---
 src/simulation/remesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index a1fd82f..d615bb7 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -230,7 +230,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
         high_x = high_x_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8) );
         high_x = high_x_init + expansion_factor * dx;
     }
 
@@ -239,7 +239,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_x-min_x_init)/dx - 1e-8*dx) );
         low_x = low_x_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx + 1e-8) );
         low_x = low_x_init - expansion_factor * dx;
     }
 
@@ -248,7 +248,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
         high_y = high_y_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx + 1e-8) );
         high_y = high_y_init + expansion_factor * dx;
     }
 
@@ -257,7 +257,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_y-min_y_init)/dx - 1e-8*dx) );
         low_y = low_y_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx + 1e-8) );
         low_y = low_y_init - expansion_factor * dx;
     }
 #ifdef THREEDIM
@@ -266,7 +266,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_z_init-max_z)/dx - 1e-8*dx) );
         high_z = high_z_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx + 1e-8) );
         high_z = high_z_init + expansion_factor * dx;
     }
 
@@ -275,7 +275,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_z-min_z_init)/dx - 1e-8*dx) );
         low_z = low_z_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx + 1e-8) );
         low_z = low_z_init - expansion_factor * dx;
     }
 #endif
-- 
2.43.0


From 986b8fd426bd69dec07b50bee528ee433fe1dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:14 +0000
Subject: [PATCH 11/24] fix: contact with a plate uses its speed of the current
 step

During the loading phase the plate moves at reduced speed, but contact in the
first step used the full speed, and in the first step after the loading phase
still the reduced one.
---
 src/objects/object_plate.hpp  | 9 ++++++++-
 src/simulation/simulation.cpp | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/objects/object_plate.hpp b/src/objects/object_plate.hpp
index a01b414..e2f8f13 100644
--- a/src/objects/object_plate.hpp
+++ b/src/objects/object_plate.hpp
@@ -133,7 +133,7 @@ public:
 #endif
 
 
-  void move(T dt, T frame_dt, T time){
+  void updateVelocity(T frame_dt, T time){
 
       T factor = (time < load_factor * frame_dt) ? (1.0 / vmin_factor) : 1.0;
       vx_object = vx_object_original * factor;
@@ -142,6 +142,13 @@ public:
       vz_object = vz_object_original * factor;
     #endif
 
+  } // end updateVelocity(frame_dt, time)
+
+
+  void move(T dt, T frame_dt, T time){
+
+      updateVelocity(frame_dt, time);
+
       if (plate_type == PlateType::left || plate_type == PlateType::right){
           pos_object += dt * vx_object;
           pos_upper  += dt * vy_object;
diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 2e2b745..8c2b8bf 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -213,6 +213,10 @@ void Simulation::simulate(){
 void Simulation::advanceStep(){
     updateDt();
 
+    for (auto& obj : plates) {
+        obj->updateVelocity(frame_dt, time);
+    }
+
     if (pbc){
         if (current_time_step == 0)
             remeshFixed(4);
-- 
2.43.0


From 52290220aed1a74d1b6656ac7c42fd3325cbb80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:21 +0000
Subject: [PATCH 12/24] fix: MUSL re-transfers the periodic images as well

With periodic boundary conditions the velocities of grid nodes near the ends
were divided by the mass of particles and images but summed over the
particles only.
---
 src/simulation/musl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simulation/musl.cpp b/src/simulation/musl.cpp
index 5ab5e98..640664e 100644
--- a/src/simulation/musl.cpp
+++ b/src/simulation/musl.cpp
@@ -27,6 +27,10 @@ void Simulation::MUSL(){
 
     std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );
 
+    if (pbc){
+        PBCAddParticles(4);
+    }
+
     #pragma omp parallel num_threads(n_threads)
     {
         std::vector<TV> grid_v_local(grid_nodes, TV::Zero() );
@@ -87,6 +91,9 @@ void Simulation::MUSL(){
 
     } // end omp parallel
 
+    if (pbc){
+        PBCDelParticles();
+    }
 
     for (int l = 0; l<grid_nodes; l++){
         T mi = grid.mass[l];
-- 
2.43.0


From c4743028f47d40bbe25bbdf242a76d5d456deabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:50 +0000
Subject: [PATCH 13/24] fix: periodic images carry the internal friction

With material-induced boundary friction P2G read particles.muI beyond its end
for the images.
---
 src/simulation/pbc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 0795fd8..bb8fd59 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -56,6 +56,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -71,6 +72,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -97,6 +99,7 @@ void Simulation::PBCDelParticles(){
     particles.F.erase(   particles.F.end()   -num_add_pbc_particles, particles.F.end()   );
     particles.Bmat.erase(particles.Bmat.end()-num_add_pbc_particles, particles.Bmat.end());
     particles.tau.erase( particles.tau.end() -num_add_pbc_particles, particles.tau.end() );
+    particles.muI.erase( particles.muI.end() -num_add_pbc_particles, particles.muI.end() );
     Np = particles.x.size();
 
 #ifdef WARNINGS
-- 
2.43.0


From a6fae906f4534e69a0b731729a71612e32f55286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:33 +0000
Subject: [PATCH 14/24] fix: a particle exactly at x = Lx has its periodic
 image

It interacts with the particles near x = 0 like any other particle near the end.
---
 src/simulation/pbc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index bb8fd59..f6b84d0 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -47,7 +47,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         T diff;
 
         diff = Lx - part_x(0);
-        if ( diff < safety_factor*dx && diff > 0){
+        if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
             #pragma omp critical
             {
-- 
2.43.0


From cc27536c452fb73380fbe3eb6f9a62e4e5ae601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:57 +0000
Subject: [PATCH 15/24] fix: add periodic images without a data race

Other threads read the particle arrays while the critical section appended to
(and reallocated) them.
---
 src/simulation/pbc.cpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index f6b84d0..e8d3150 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -40,7 +40,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
 
     num_add_pbc_particles = 0;
 
-    #pragma omp parallel for reduction(+:num_add_pbc_particles) num_threads(n_threads)
+    // Not parallel: appending may reallocate the arrays being read
     for(int p = 0; p < Np; p++){
 
         TV part_x = particles.x[p]; // copy
@@ -49,15 +49,12 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = Lx - part_x(0);
         if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-                particles.muI.push_back(particles.muI[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -65,15 +62,12 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = part_x(0);
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-                particles.muI.push_back(particles.muI[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
-- 
2.43.0


From 712ad55663d4f85f31168faa817208d705f099c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 16/24] fix: grid friction is zero, not NaN, at nodes without
 mass

---
 src/simulation/p2g.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/p2g.cpp b/src/simulation/p2g.cpp
index c06ff3f..1d724d2 100644
--- a/src/simulation/p2g.cpp
+++ b/src/simulation/p2g.cpp
@@ -126,7 +126,7 @@ void Simulation::P2G(){
         else
             grid.v[l].setZero();
         //grid.v[l] = (mi > 0) ? grid.v[l]/mi : TV::Zero(); // condition ? result_if_true : result_if_false
-        if (use_mibf)
+        if (use_mibf && mi > 0)
             grid.friction[l] /= mi;
     }
 
-- 
2.43.0


From 168ff1742d8d9639c1952a59e1520910df542313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:01 +0000
Subject: [PATCH 17/24] fix: regular sampling fills boxes that are a whole
 number of spacings wide

---
 src/sampling/regular_sampling_particles.hpp     | 10 +++++-----
 src/sampling/regular_sampling_particles_vdb.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sampling/regular_sampling_particles.hpp b/src/sampling/regular_sampling_particles.hpp
index 1266692..8bbd14c 100644
--- a/src/sampling/regular_sampling_particles.hpp
+++ b/src/sampling/regular_sampling_particles.hpp
@@ -27,9 +27,9 @@ void regularSampleParticles(S& sim, T ppc = 4, unsigned int crop_to_shape = 0)
 
     const T pSpacing = sim.dx / std::cbrt(ppc);
 
-    const int nx = int(Lx / pSpacing);
-    const int ny = int(Ly / pSpacing);
-    const int nz = int(Lz / pSpacing);
+    const int nx = int(Lx / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
+    const int ny = int(Ly / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
+    const int nz = int(Lz / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
 
     std::vector<TV> square_samples;
     std::vector<TV> samples;
@@ -92,8 +92,8 @@ void regularSampleParticles(S& sim, T ppc = 4, unsigned int crop_to_shape = 0)
 
     const T pSpacing = sim.dx / std::sqrt(ppc);
 
-    const int nx = int(Lx / pSpacing);
-    const int ny = int(Ly / pSpacing);
+    const int nx = int(Lx / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
+    const int ny = int(Ly / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
 
     std::vector<TV> square_samples;
     std::vector<TV> samples;
diff --git a/src/sampling/regular_sampling_particles_vdb.hpp b/src/sampling/regular_sampling_particles_vdb.hpp
index 53182df..45106db 100644
--- a/src/sampling/regular_sampling_particles_vdb.hpp
+++ b/src/sampling/regular_sampling_particles_vdb.hpp
@@ -27,9 +27,9 @@ void regularSampleParticlesFromVdb(S& sim, ObjectVdb& obj, T ppc = 4)
 
     const T pSpacing = sim.dx / std::cbrt(ppc);
 
-    const int nx = int(L(0) / pSpacing);
-    const int ny = int(L(1) / pSpacing);
-    const int nz = int(L(2) / pSpacing);
+    const int nx = int(L(0) / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
+    const int ny = int(L(1) / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
+    const int nz = int(L(2) / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
 
     std::vector<TV> samples;
 
@@ -61,8 +61,8 @@ void regularSampleParticlesFromVdb(S& sim, ObjectVdb& obj, T ppc = 4)
 
     const T pSpacing = sim.dx / std::sqrt(ppc);
 
-    const int nx = int(L(0) / pSpacing);
-    const int ny = int(L(1) / pSpacing);
+    const int nx = int(L(0) / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
+    const int ny = int(L(1) / pSpacing + 1e-8); // a whole number of spacings fits despite round-off
 
     std::vector<TV> samples;
 
-- 
2.43.0


From 206ad0acb9c351693da73ccfeb8f8b081fbbd7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:50 +0000
Subject: [PATCH 18/24] fix: boundary friction of Cam-Clay without hardening
 uses p0, not an uninitialised value

---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 77969ef..90474e7 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -557,6 +557,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             bool perform_rma;
             T p_c;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
+                p_c = p0;
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K);
             }
-- 
2.43.0


From a90c67c6247f635a9a80696464e29d8dad072bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:50 +0000
Subject: [PATCH 19/24] fix: an invalid hardening law leaves the particles
 untouched

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 90474e7..7ffab1a 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -469,7 +469,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             T q_trial = q_stress;
 
             //////////////////////////////////////////////////////////////////////
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::ExpoExpl){ // Exponential Explicit Hardening
                 p_c = std::max(stress_tolerance, p0 * std::exp(-xi*particles.eps_pl_vol[p]));
@@ -554,7 +554,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (use_mibf)
                 particles.muI[p] = M;
             
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
                 p_c = p0;
-- 
2.43.0


From 17e630f78765dbae35dc1a2a843033ffbb25606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:26 +0000
Subject: [PATCH 20/24] fix: plates ignore a negative material-induced friction
 as objects do

The mobilised friction of DPVisc is negative in cohesive tension; with plates
(unlike objects) it accelerated the tangential motion instead of being ignored.
---
 src/simulation/boundary_collision.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index df55977..aef0d7a 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -106,7 +106,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vy_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -129,7 +129,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vy_rel*vy_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vx_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -152,7 +152,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vy_rel*vy_rel);
                     T fric_vel_n = friction * std::abs(vz_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -184,7 +184,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vy_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -206,7 +206,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vy_rel*vy_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vx_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -228,7 +228,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vy_rel*vy_rel);
                     T fric_vel_n = friction * std::abs(vz_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -289,7 +289,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
                 if (obj->plate_type == PlateType::top || obj->plate_type == PlateType::bottom){
                     // tangential velocity is the (x) component and must be changed
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vx_rel) < friction * std::abs(vy_rel) ){
@@ -309,7 +309,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                 else if (obj->plate_type == PlateType::left || obj->plate_type == PlateType::right){
                     // tangential velocity is the (y) component and must be changed
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vy_rel) < friction * std::abs(vx_rel) ){
@@ -339,7 +339,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
                 if ((obj->plate_type == PlateType::top && vy_rel > 0) || (obj->plate_type == PlateType::bottom && vy_rel < 0)){
                     // tangential velocity is the (x) component and must be changed
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vx_rel) < friction * std::abs(vy_rel) ){
@@ -358,7 +358,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                 } // end PlateType::top and PlateType::bottom plate
                 else if ((obj->plate_type == PlateType::left && vx_rel < 0) || (obj->plate_type == PlateType::right && vx_rel > 0)){
                     // tangential velocity is the (y) component and must be changed
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vy_rel) < friction * std::abs(vx_rel) ){
-- 
2.43.0


From 08a31619f6c005d62be99d61d2ad942ecb8e00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:12 +0000
Subject: [PATCH 21/24] fix: count plastic particles without a data race

---
 src/simulation/g2p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 12fd3a6..0a4e3c7 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -21,7 +21,7 @@ void Simulation::G2P(){
     #pragma omp parallel num_threads(n_threads)
     {
 
-        #pragma omp for nowait
+        #pragma omp for nowait reduction(+:plastic_count)
         for(int p = 0; p < Np; p++){
             TV xp = particles.x[p];
             TV vp    = TV::Zero();
-- 
2.43.0


From 5b2aee511864954c5a49d18a2682b1640c3543d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:11 +0000
Subject: [PATCH 22/24] fix: a periodic image that rounds up to the end of its
 range read past the grid

---
 src/simulation/remesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index d615bb7..505250e 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -14,7 +14,7 @@ void Simulation::resizeGrid(){
 // A fixed grid - must hard-coded for every simulation
 void Simulation::remeshFixed(unsigned int extra_nodes){
 
-    grid.x = arange(-dx*(1+extra_nodes), Lx+(2+extra_nodes)*dx, dx);
+    grid.x = arange(-dx*(1+extra_nodes), Lx+(3+extra_nodes)*dx, dx); // one more node above: a periodic image may round up to Lx+extra_nodes*dx
     grid.y = arange(-dx,                 Ly+(2+extra_nodes)*dx, dx);
     #ifdef THREEDIM
         grid.z = arange(-dx*(1+extra_nodes), Lz+(2+extra_nodes)*dx, dx);
-- 
2.43.0


From 0cadb17dac7ac3c9a0a5cb88029e16eaa6b99a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:12 +0000
Subject: [PATCH 23/24] fix: implicit Cam-Clay return mapping accepted states
 its Newton iteration had not solved

When the iteration ran out of steps or was thrown onto the p-center of the yield
surface, the state at hand was clamped and returned: pressure, q and the
consolidation pressure then belonged to different plastic strains, off the yield
surface. Solve such cases by bisection between the trial state and the p-center.
---
 .../mcc_rma_implicit_exponential_onevar.hpp   | 58 ++++++++++++-------
 .../mcc_rma_implicit_sinh_onevar.hpp          | 56 ++++++++++++------
 2 files changed, 75 insertions(+), 39 deletions(-)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 9fe04d7..1b0c690 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -63,11 +63,13 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
     }
 
     // Newton-Raphson iterative root finding
+    bool converged = false;
     int max_iter = 30;
     for (int iter = 0;  iter < max_iter;  iter++) {
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < 1e-4) {
             // if p == midpoint then we map q to top of yield surface since no plastic change
+            converged = (iter == 0); // otherwise the iteration only ran into the p-center
             break; // q is computed after the loop, where p is also kept on the surface (which may have become smaller than this threshold)
         }
 
@@ -88,29 +90,10 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
 
         // Check for convergence, iteration > 3 check is done to ensure some displacement is measured.
         if (iter > 5 && abs(y) < 1.e-4){
+            converged = true;
             break;
         }
 
-        if (iter == max_iter - 1) {  // did not break loop
-            if (p0 > 1.e-3 * scale_factor) {
-                debug("RMA: FATAL did not exit loop at iteration = ", iter, ", iteration = ", iter);
-                debug("Consider changing the threshold for breaking the N-R loop");
-                debug("y    = ", y);
-                debug("p0   = ", p0);
-                debug("K    = ", K);
-                debug("G    = ", mu);
-                debug("pt   = ", p_t);
-                debug("qt   = ", q_t);
-                debug("epvt = ", epv_t);
-                debug("epv  = ", epv);
-                debug("p    = ", p);
-                debug("q    = ", q);
-                debug("p0_t = ", p0_t);
-                debug("scale factor = ", scale_factor);  
-                // exit = 1;
-            }
-        }
-
         // Compute derivative helpers
         T dp_depv = K;  // compute dp/depv
         T dp0_depv = -xi * p0;  // compute dp0/depv
@@ -145,6 +128,41 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         }
     }
 
+    if (!converged) {
+        // The solution lies between the trial state (y > 0) and the state where p meets the p-center of the yield surface (y < 0)
+        T epv_out = epv_t;
+        T epv_in  = epv_t + (0.5 * (1. - beta) - p_t) / K;
+        for (int iter = 0;  iter < 100;  iter++) {
+            epv = 0.5 * (epv_out + epv_in);
+            p = (epv - epv_t) * K + p_t;
+            p0 = p00 * std::exp(-xi * epv);
+            T dg_step = (p_t - p) / (2. * K * Msq * p + Msq * (beta - 1.) * K * p0);
+            q = q_t / (1. + 2. * mu * damping_factor * dg_step);
+            y = Msq * (p - p0) * (p + beta * p0) + damping_factor * q * q;
+            if (dg_step >= 0 && y > 0)
+                epv_out = epv;
+            else
+                epv_in = epv;
+        }
+        if (std::abs(y) >= 1e-4 && p0 > 1.e-3 * scale_factor) {
+            debug("RMA: FATAL no solution found after iterations = ", max_iter);
+            debug("Consider changing the threshold for breaking the N-R loop");
+            debug("y    = ", y);
+            debug("p0   = ", p0);
+            debug("K    = ", K);
+            debug("G    = ", mu);
+            debug("pt   = ", p_t);
+            debug("qt   = ", q_t);
+            debug("epvt = ", epv_t);
+            debug("epv  = ", epv);
+            debug("p    = ", p);
+            debug("q    = ", q);
+            debug("p0_t = ", p0_t);
+            debug("scale factor = ", scale_factor);  
+            // exit = 1;
+        }
+    }
+
     // ensure p is within valid range
     p = std::max(p, -beta * p0);
     p = std::min(p, p0);
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 62dc333..4b17c15 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -58,11 +58,13 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
     }
 
     // Newton-Raphson iterative root finding
+    bool converged = false;
     int max_iter = 40;
     for (int iter = 0;  iter < max_iter;  iter++) {
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < T(1.e-4)) {
             // if p_t == midpoint then we map q to top of yield surface since no plastic change
+            converged = (iter == 0); // otherwise the iteration only ran into the p-center
             break; // q is computed after the loop, where p is also kept on the surface (which may have become smaller than this threshold)
         }
 
@@ -85,28 +87,10 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
 
         // Check for convergence, iteration > 3 check is done to ensure some displacement is measured.
         if (iter > 5 && std::abs(y) < 1e-4) {
+            converged = true;
             break;
         }
 
-        if (iter == max_iter - 1) {  // did not break loop
-            if (p0 > p0_min) {
-                debug("RMA: FATAL did not exit loop at iteration = ", iter, ", iteration = ", iter);
-                debug("y    = ", y);
-                debug("p0   = ", p0);
-                debug("K    = ", K);
-                debug("G    = ", mu);
-                debug("pt   = ", p_t);
-                debug("qt   = ", q_t);
-                debug("epvt = ", epv_t);
-                debug("epv  = ", epv);
-                debug("p    = ", p);
-                debug("q    = ", q);
-                debug("p0_t = ", p0_t);
-                debug("scale factor = ", scale_factor); 
-                exit = 1;
-            }
-        }
-
         // Compute derivative helpers
         T dp_depv = K;  // compute dp/depv
 
@@ -150,6 +134,40 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
         }
     }
 
+    if (!converged) {
+        // The solution lies between the trial state (y > 0) and the state where p meets the p-center of the yield surface (y < 0)
+        T epv_out = epv_t;
+        T epv_in  = epv_t + (0.5 * (1. - beta) - p_t) / K;
+        for (int iter = 0;  iter < 100;  iter++) {
+            epv = 0.5 * (epv_out + epv_in);
+            p = (epv - epv_t) * K + p_t;
+            p0 = std::max(p0_min, K * std::sinh(-xi * epv + std::asinh(p00/K)));
+            T dg_step = (p_t - p) / (2. * K * Msq * p + Msq * (beta - 1.) * K * p0);
+            q = q_t / (1. + 2. * mu * damping_factor * dg_step);
+            y = Msq * (p - p0) * (p + beta * p0) + damping_factor * q * q;
+            if (dg_step >= 0 && y > 0)
+                epv_out = epv;
+            else
+                epv_in = epv;
+        }
+        if (std::abs(y) >= 1e-4 && p0 > p0_min) {
+            debug("RMA: FATAL no solution found after iterations = ", max_iter);
+            debug("y    = ", y);
+            debug("p0   = ", p0);
+            debug("K    = ", K);
+            debug("G    = ", mu);
+            debug("pt   = ", p_t);
+            debug("qt   = ", q_t);
+            debug("epvt = ", epv_t);
+            debug("epv  = ", epv);
+            debug("p    = ", p);
+            debug("q    = ", q);
+            debug("p0_t = ", p0_t);
+            debug("scale factor = ", scale_factor); 
+            exit = 1;
+        }
+    }
+
     // ensure p is within valid range
     p = std::max(p, -beta * p0);
     p = std::min(p, p0);
-- 
2.43.0


From fe6832e16fe1c316aeb289988a3c8bddf7c3e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:01 +0000
Subject: [PATCH 24/24] fix: in a periodic box narrower than eight cells
 particles near both ends lacked one of their images

---
 src/simulation/pbc.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index e8d3150..5d89d23 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -56,10 +56,9 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.tau.push_back(particles.tau[p]);
             particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
-            continue; // go directly to next p
         }
 
-        diff = part_x(0);
+        diff = particles.x[p](0); // in a narrow box a particle may be near both ends
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
             particles.x.push_back(part_x);
@@ -69,7 +68,6 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.tau.push_back(particles.tau[p]);
             particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
-            continue; // go directly to next p
         }
 
     } // end loop over p
-- 
2.43.0

