From 22cca4e6c87f57cb7bbb40d8fcb63c8b44ffbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 01/23] fix: SparseMatrix::destroy must forget its capacity

A destroyed matrix kept m_capacityHeight, so the next resize() to a height
within it skipped allocation and wrote through null pointers.
---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..01dda4b 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -69,6 +69,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From 288a41bcd0a3fc2d033c7888ac61c50e8ffc4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 02/23] fix: SparseMatrix::initialize must clear the stored
 entries

Only the block table was reset, so get() on an entry without a block read
indeterminate memory; that value was reported as the constraint reaction on
a body that is not part of the system.
---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 01dda4b..7b41272 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -31,6 +31,7 @@ namespace atg_scs {
             void initialize(int width, int height) {
                 resize(width, height);
                 memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
-- 
2.43.0


From d50d199118ad2c0790ae8d85088e8d6007a7564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 03/23] fix: SparseMatrix block indices must not be truncated
 to 8 bits

Block column indices were stored as uint8_t with 0xFF meaning empty: the
constraint rows of body 255 vanished and those of body 256+k were applied to
body k.
---
 include/sparse_matrix.h | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 7b41272..323ef3a 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -6,7 +6,6 @@
 #include "utilities.h"
 
 #include <assert.h>
-#include <stdint.h>
 #include <string.h>
 
 namespace atg_scs {
@@ -30,7 +29,7 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);
                 memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
@@ -45,7 +44,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new int[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -78,8 +77,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -94,8 +93,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -105,7 +104,7 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, int index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
                 assert(index < m_width);
@@ -133,7 +132,7 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = -1;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -148,11 +147,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const int block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == -1) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -181,8 +180,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + k];
+                        if (block == -1) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -205,8 +204,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const int block = m_blockData[i * T_Entries + k];
+                            if (block == -1) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -226,8 +225,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -250,8 +249,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -272,7 +271,7 @@ namespace atg_scs {
         protected:
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            int *m_blockData;
 
             int m_width;
             int m_height;
-- 
2.43.0


From e9539d16c216de8a9ce8412b5ba62f833d512de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 04/23] fix: GenericRigidBodySystem must release its
 intermediate matrices

The destructor left every matrix allocated, so destroying a system that had
been stepped aborted in ~Matrix (assertion) or leaked (NDEBUG).
---
 src/generic_rigid_body_system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..994e824 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,24 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.J_T.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From 047729139b6b703ed609cf805fa73ea8993daff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 05/23] fix: GenericRigidBodySystem reported reactions from the
 wrong slots

Reactions are stored two per constraint row; the write-back indexed them by
row alone and ignored the body.
---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 994e824..777d9d2 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -97,9 +97,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From 78d8c670f25e10444713b1120a0257865fe43ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 06/23] fix: reactions on unregistered bodies must not touch
 the state arrays

Bodies with index -1 are skipped when the Jacobian is assembled, but the
reaction loop still wrote a_x[-1], a_y[-1] and a_theta[-1].
---
 src/generic_rigid_body_system.cpp       | 3 +++
 src/optimized_nsv_rigid_body_system.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 777d9d2..e28f440 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -235,6 +235,9 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..4805b2a 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -250,6 +250,9 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From 16b9ef6ab537e595cc31fd4121a8738091467291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 07/23] fix: RK4 stage positions must use the previous stage
 velocity

Each stage overwrote the velocities before advancing the positions with them,
which reduces the method from fourth to second order for position-dependent
forces.
---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..ffcc176 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -26,36 +26,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From 79c5ec5fda70d932b2cc5c8cdbd77970a8e97518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 08/23] fix: RK4 must report the weighted average of the stage
 reactions

The accumulator started from whatever the state arrays held (indeterminate
memory on the first step, the previous total afterwards), covered only half of
the two-slots-per-row reactions and scaled forces by dt.
---
 src/rk4_ode_solver.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index ffcc176..8fb6356 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,10 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    for (int i = 0; i < initial->n_c * 2; ++i) {
+        m_accumulator.r_x[i] = m_accumulator.r_y[i] = m_accumulator.r_t[i] = 0.0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +92,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < system->n_c * 2; ++i) {
+        m_accumulator.r_x[i] += system->r_x[i] * stageWeight / 6.0;
+        m_accumulator.r_y[i] += system->r_y[i] * stageWeight / 6.0;
+        m_accumulator.r_t[i] += system->r_t[i] * stageWeight / 6.0;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +108,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < system->n_c * 2; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From b545f766da715543edc9e7cd75507b42104edbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 09/23] fix: SystemState::resize must honour a smaller size

Shrinking was ignored, so state()->n kept counting removed bodies and copy()
into a previously larger state read past the end of the source arrays (an RK4
solver shared by two systems).
---
 src/system_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..9aa481e 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -72,7 +72,7 @@ void atg_scs::SystemState::copy(const SystemState *state) {
 }
 
 void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
-    if (n >= bodyCount && n_c >= constraintCount) {
+    if (n == bodyCount && n_c == constraintCount) {
         return;
     }
 
-- 
2.43.0


From bdcdc7cac7930dd835a8641df87ef6f19feb1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 10/23] fix: SystemState::destroy leaked zero-length arrays

With bodies but no constraints (or the reverse) the empty arrays were
allocated and never freed.
---
 src/system_state.cpp | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index 9aa481e..c2331e0 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -106,32 +106,28 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
-        freeArray(a_theta);
-        freeArray(v_theta);
-        freeArray(theta);
-
-        freeArray(a_x);
-        freeArray(a_y);
-        freeArray(v_x);
-        freeArray(v_y);
-        freeArray(p_x);
-        freeArray(p_y);
-
-        freeArray(f_x);
-        freeArray(f_y);
-        freeArray(t);
-
-        freeArray(m);
-    }
+    freeArray(a_theta);
+    freeArray(v_theta);
+    freeArray(theta);
 
-    if (n_c > 0) {
-        freeArray(indexMap);
+    freeArray(a_x);
+    freeArray(a_y);
+    freeArray(v_x);
+    freeArray(v_y);
+    freeArray(p_x);
+    freeArray(p_y);
 
-        freeArray(r_x);
-        freeArray(r_y);
-        freeArray(r_t);
-    }
+    freeArray(f_x);
+    freeArray(f_y);
+    freeArray(t);
+
+    freeArray(m);
+
+    freeArray(indexMap);
+
+    freeArray(r_x);
+    freeArray(r_y);
+    freeArray(r_t);
 
     n = 0;
     n_c = 0;
-- 
2.43.0


From 118ddc82d7a77bd56bfabea82d21594d1dda7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 11/23] fix: Spring must not apply force to an unregistered
 body

The end points already handle index -1, but the force was still accumulated at
index -1 of the state arrays.
---
 src/spring.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
-- 
2.43.0


From b32276e5beb52caf54136e0134a02d7f615eebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 12/23] fix: GaussianEliminationSleSolver left a stale result
 for empty systems

After the last constraint was removed the result kept its old size and the
system aborted when scaling the empty Jacobian by it.
---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..daa9ac4 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
-- 
2.43.0


From 30ce61290abf9f9e5a8db106f0f1ea56a1a838f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 13/23] fix: GaussianEliminationSleSolver must report singular
 systems

solve() returns whether the system could be solved, but a singular system
aborted with assertions enabled and returned true with a non-finite result
without them.
---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daa9ac4..605dd72 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -79,7 +79,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
     }
 
     if (A.get(n - 2, m - 1) == 0) {
-        assert(false);
+        return false;
     }
 
     const double x_m = A.get(n - 1, m - 1) / A.get(n - 2, m - 1);
@@ -101,7 +101,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     for (int i = 0; i < m; ++i) {
         if (std::isnan(result->get(0, i)) || std::isinf(result->get(0, i))) {
-            assert(false);
+            return false;
         }
     }
 
-- 
2.43.0


From 0ca1d8426e5ef573b0307b8cac7841373cffdeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 14/23] fix: GaussSeidelSleSolver::solve iterated from
 indeterminate memory

resize() does not define the new entries; without a usable previous solution
the iteration started from whatever the allocation contained. solveWithLimits
already initializes.
---
 src/gauss_seidel_sle_solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..0b5fae5 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -25,8 +25,9 @@ bool atg_scs::GaussSeidelSleSolver::solve(
         Matrix *result)
 {
     const int n = right.getHeight();
-    
-    result->resize(1, n);
+    if (result->getHeight() != n) {
+        result->initialize(1, n);
+    }
 
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
-- 
2.43.0


From 91177c2a37e673d6f70213b7283876a8746e41ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 15/23] fix: GaussSeidelSleSolver::solve declared convergence
 too early

The change of an unknown was measured between magnitudes and without absolute
value, so sign flips, any decrease and NaN all counted as converged.
---
 src/gauss_seidel_sle_solver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 0b5fae5..4e9523b 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -109,9 +109,9 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
-        maxDifference = (delta > maxDifference)
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
+        maxDifference = !(delta <= maxDifference)
             ? delta
             : maxDifference;
 
-- 
2.43.0


From 5bf7d49c074ac1fc11ed3518083b8b36132badee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 16/23] fix: ConjugateGradientSleSolver reported success for
 NaN residuals

---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
-- 
2.43.0


From e2cf23fe3be8369ee355b2f5ab2b096f1db90c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 17/23] fix: removed objects must not keep their slot index

An index of -1 marks an object that is not part of a system. Removal left the
old index in place, so springs, motors and constraints still attached to a
removed body acted on whichever body took over its slot.
---
 src/force_generator.cpp   | 2 +-
 src/rigid_body_system.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/force_generator.cpp b/src/force_generator.cpp
index 598ebb1..58cc689 100644
--- a/src/force_generator.cpp
+++ b/src/force_generator.cpp
@@ -1,7 +1,7 @@
 #include "../include/force_generator.h"
 
 atg_scs::ForceGenerator::ForceGenerator() {
-    /* void */
+    m_index = -1;
 }
 
 atg_scs::ForceGenerator::~ForceGenerator() {
diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index b32c5f3..ddfd9d3 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -47,6 +47,7 @@ void atg_scs::RigidBodySystem::removeRigidBody(RigidBody *body) {
     m_rigidBodies[body->index] = m_rigidBodies.back();
     m_rigidBodies[body->index]->index = body->index;
     m_rigidBodies.resize(m_rigidBodies.size() - 1);
+    body->index = -1;
 }
 
 atg_scs::RigidBody *atg_scs::RigidBodySystem::getRigidBody(int i) {
@@ -63,6 +64,7 @@ void atg_scs::RigidBodySystem::removeConstraint(Constraint *constraint) {
     m_constraints[constraint->m_index] = m_constraints.back();
     m_constraints[constraint->m_index]->m_index = constraint->m_index;
     m_constraints.resize(m_constraints.size() - 1);
+    constraint->m_index = -1;
 }
 
 void atg_scs::RigidBodySystem::addForceGenerator(ForceGenerator *forceGenerator) {
@@ -74,6 +76,7 @@ void atg_scs::RigidBodySystem::removeForceGenerator(ForceGenerator *forceGenerat
     m_forceGenerators[forceGenerator->m_index] = m_forceGenerators.back();
     m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;
     m_forceGenerators.resize(m_forceGenerators.size() - 1);
+    forceGenerator->m_index = -1;
 }
 
 int atg_scs::RigidBodySystem::getFullConstraintCount() const {
-- 
2.43.0


From 8edc665834014209932dc94c80e9728db9e68dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 18/23] fix: Constraint must initialize all of its body
 pointers

---
 src/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index e7549f3..765332a 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -12,7 +12,7 @@ atg_scs::Constraint::Constraint(int constraintCount, int bodyCount) {
 
     m_index = -1;
 
-    memset(m_bodies, 0, sizeof(int) * MaxBodyCount);
+    memset(m_bodies, 0, sizeof(RigidBody *) * MaxBodyCount);
 
     for (int i = 0; i < MaxConstraintCount; ++i) {
         for (int j = 0; j < MaxBodyCount; ++j) {
-- 
2.43.0


From e32dfeeaa265fae5e7b685ee0441a4f1e052a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 19/23] fix: Matrix vector products and set() must follow the
 row table

dot(), vectorMagnitudeSquared() and set(const double *) assumed rows lie in
buffer order, which no longer holds after fastRowSwap(): the products read out
of bounds and set() filled the wrong rows.
---
 src/matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..16f2f17 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,9 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        memcpy(m_matrix[i], &data[i * m_width], sizeof(double) * m_width);
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
@@ -231,7 +233,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -244,7 +246,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From 8137fbb8301411234e66b30a34f34a4abff18161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 20/23] fix: copy constraint rows of a state that has no bodies

---
 src/system_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index c2331e0..42d7a2e 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -43,7 +43,7 @@ atg_scs::SystemState::~SystemState() {
 void atg_scs::SystemState::copy(const SystemState *state) {
     resize(state->n, state->n_c);
 
-    if (state->n == 0) {
+    if (state->n == 0 && state->n_c == 0) {
         return;
     }
 
-- 
2.43.0


From a03e9b0731bb5c09ea073e81ee61c3481e74f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 21/23] fix: GaussSeidelSleSolver::solveWithLimits ignored an
 undefined change

---
 src/gauss_seidel_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 4e9523b..688a2ce 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -150,7 +150,7 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(x - k->get(0, i)) / min_k;
-        maxDifference = (delta > maxDifference)
+        maxDifference = (delta > maxDifference || std::isnan(delta))
             ? delta
             : maxDifference;
 
-- 
2.43.0


From affc5384448e4e269860aaecd259a650bb842d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 22/23] fix: ConstantSpeedMotor must not touch the state of an
 unregistered driven body

---
 src/constant_speed_motor.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/constant_speed_motor.cpp b/src/constant_speed_motor.cpp
index dd775a3..39cb8a0 100644
--- a/src/constant_speed_motor.cpp
+++ b/src/constant_speed_motor.cpp
@@ -28,10 +28,19 @@ void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
         a1 = state->a_theta[m_body0->index];
     }
 
-    const double rel_v =
-        state->v_theta[m_body1->index] - v1;
-    const double rel_a =
-        state->a_theta[m_body1->index] - a1;
+    double v2;
+    double a2;
+
+    if (m_body1->index == -1) {
+        v2 = a2 = 0;
+    }
+    else {
+        v2 = state->v_theta[m_body1->index];
+        a2 = state->a_theta[m_body1->index];
+    }
+
+    const double rel_v = v2 - v1;
+    const double rel_a = a2 - a1;
     const double delta = m_speed - rel_v;
 
     const double torque = delta * m_ks;
@@ -41,5 +50,5 @@ void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
         std::fmin(m_maxTorque, std::fmax(-m_maxTorque, totalTorque));
 
     if (m_body0->index != -1) state->t[m_body0->index] -= limitedTorque;
-    state->t[m_body1->index] += limitedTorque;
+    if (m_body1->index != -1) state->t[m_body1->index] += limitedTorque;
 }
-- 
2.43.0


From 94786d30078d65b714bd065153615f969b751fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 23/23] fix: StaticForceGenerator must not touch the state of
 an unregistered body

---
 src/static_force_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/static_force_generator.cpp b/src/static_force_generator.cpp
index 1d238cb..707331d 100644
--- a/src/static_force_generator.cpp
+++ b/src/static_force_generator.cpp
@@ -14,6 +14,8 @@ atg_scs::StaticForceGenerator::~StaticForceGenerator() {
 }
 
 void atg_scs::StaticForceGenerator::apply(SystemState *state) {
+    if (m_body->index == -1) return;
+
     state->applyForce(
         m_p_x,
         m_p_y,
-- 
2.43.0

