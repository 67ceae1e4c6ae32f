From f37693833e811a0413ddc3dc3b83e01c0ce21f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:55 +0000
Subject: [PATCH 01/53] fix: tv: index rectangular reconstruction grids with
 their row length

The image is stored with num_gridy values per row, but the total-variation
terms used rows of num_gridx values, so on a rectangular grid they coupled
pixels that are not neighbours.
---
 source/libtomo/recon/tv.c | 82 +++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/source/libtomo/recon/tv.c b/source/libtomo/recon/tv.c
index 2f3e054..ca782d1 100755
--- a/source/libtomo/recon/tv.c
+++ b/source/libtomo/recon/tv.c
@@ -103,9 +103,9 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
     for(s = 0; s < dy; s++)
     {
         ind_recon = s * ngridx * ngridy;
-        for(iy = 0; iy < ngridy; iy++)
-            for(ix = 0; ix < ngridx; ix++)
-                recon[ind_recon + iy * ngridx + ix] /= r;
+        for(iy = 0; iy < ngridx; iy++)
+            for(ix = 0; ix < ngridy; ix++)
+                recon[ind_recon + iy * ngridy + ix] /= r;
     }
 
     memcpy(update, recon, dy * ngridx * ngridy * sizeof(float));
@@ -127,27 +127,27 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
             // compute proximal of the gradient in x and y directions
             // prox0 = prox0+c*grad(recon);
             // prox0 = prox0/max(1,abs(prox0)/lambda);
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    prox0x[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + iy * ngridx + ix + 1] -
-                             recon[ind_recon + iy * ngridx + ix]);
-                    prox0y[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + (iy + 1) * ngridx + ix] -
-                             recon[ind_recon + iy * ngridx + ix]);
+                    prox0x[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + iy * ngridy + ix + 1] -
+                             recon[ind_recon + iy * ngridy + ix]);
+                    prox0y[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + (iy + 1) * ngridy + ix] -
+                             recon[ind_recon + iy * ngridy + ix]);
                 }
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    upd = sqrt(prox0x[ind_recon + iy * ngridx + ix] *
-                                   prox0x[ind_recon + iy * ngridx + ix] +
-                               prox0y[ind_recon + iy * ngridx + ix] *
-                                   prox0y[ind_recon + iy * ngridx + ix]) /
+                    upd = sqrt(prox0x[ind_recon + iy * ngridy + ix] *
+                                   prox0x[ind_recon + iy * ngridy + ix] +
+                               prox0y[ind_recon + iy * ngridy + ix] *
+                                   prox0y[ind_recon + iy * ngridy + ix]) /
                           lambda;
                     upd = upd < 1 ? 1 : upd;
-                    prox0x[ind_recon + iy * ngridx + ix] /= upd;
-                    prox0y[ind_recon + iy * ngridx + ix] /= upd;
+                    prox0x[ind_recon + iy * ngridy + ix] /= upd;
+                    prox0y[ind_recon + iy * ngridy + ix] /= upd;
                 }
 
             // compute proximal of the projections
@@ -226,34 +226,34 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
 
             // backward step. update with the divergence of prox0 and the
             // adjoint of prox1 update = update-c*R^*(prox1)-c*div(prox0);
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
                 {
-                    update[ind_recon + iy * ngridx + ix] -=
-                        c * adjdata[ind_recon + iy * ngridx + ix];
+                    update[ind_recon + iy * ngridy + ix] -=
+                        c * adjdata[ind_recon + iy * ngridy + ix];
                     if(ix == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0x[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0x[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0x[ind_recon + iy * ngridx + ix] -
-                                 prox0x[ind_recon + iy * ngridx + ix - 1]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0x[ind_recon + iy * ngridy + ix] -
+                                 prox0x[ind_recon + iy * ngridy + ix - 1]);
                     if(iy == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0y[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0y[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0y[ind_recon + iy * ngridx + ix] -
-                                 prox0y[ind_recon + (iy - 1) * ngridx + ix]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0y[ind_recon + iy * ngridy + ix] -
+                                 prox0y[ind_recon + (iy - 1) * ngridy + ix]);
                 }
 
             // update of recon
             // recon = 2*update - recon
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
-                    recon[ind_recon + iy * ngridx + ix] =
-                        2 * update[ind_recon + iy * ngridx + ix] -
-                        recon[ind_recon + iy * ngridx + ix];
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
+                    recon[ind_recon + iy * ngridy + ix] =
+                        2 * update[ind_recon + iy * ngridy + ix] -
+                        recon[ind_recon + iy * ngridy + ix];
         }
     }
 
@@ -261,9 +261,9 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
     for(s = 0; s < dy; s++)
     {
         ind_recon = s * ngridx * ngridy;
-        for(iy = 0; iy < ngridy; iy++)
-            for(ix = 0; ix < ngridx; ix++)
-                recon[ind_recon + iy * ngridx + ix] *= r;
+        for(iy = 0; iy < ngridx; iy++)
+            for(ix = 0; ix < ngridy; ix++)
+                recon[ind_recon + iy * ngridy + ix] *= r;
     }
 
     free(gridx);
-- 
2.43.0


From b09c3445862a2004349bab7cceddfc177de91ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:49 +0000
Subject: [PATCH 02/53] fix: tikh: use each slice's own regularization data in
 every chunk

With more than one chunk every chunk read the regularization data of the
first slices, so the result depended on ncore, and the default
regularization data was read out of bounds for grids larger than the
detector.
---
 source/tomopy/recon/algorithm.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2a73132..f244637 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -323,6 +323,8 @@ def recon(tomo,
 
     # Initialize reconstruction.
     recon_shape = (tomo.shape[0], kwargs['num_gridx'], kwargs['num_gridy'])
+    if kwargs.get('reg_data') is kwargs_defaults['reg_data']:
+        kwargs['reg_data'] = np.zeros(recon_shape, dtype='float32')
     if algorithm == 'gridrec':
         recon = _init_recon(recon_shape, init_recon, val=0, sharedmem=False,
                             empty=True)
@@ -380,6 +382,14 @@ def _get_func(algorithm):
         return algorithm
 
 
+def _get_slice_kwargs(algorithm, kwargs, slc):
+    """Return the keyword arguments for the slices selected by slc."""
+    if algorithm is extern.c_tikh:
+        # the regularization data has one image for each slice
+        return dict(kwargs, reg_data=kwargs['reg_data'][slc])
+    return kwargs
+
+
 def _run_accel_algorithm(idx, _func, tomo, center, recon, *_args, **_kwargs):
     # set the device to the specified index within the new process
     os.environ["TOMOPY_DEVICE_NUM"] = "{}".format(idx)
@@ -427,7 +437,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args, **kwargs)
+            algorithm(tomo[slc], center[slc], recon[slc], *args,
+                      **_get_slice_kwargs(algorithm, kwargs, slc))
     else:
         # execute recon on ncore processes. Accelerated methods have internal
         # thread-pool and NVIDIA NPP library does not support simulatenously
@@ -450,7 +461,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
             with cf.ThreadPoolExecutor(ncore) as e:
                 futures = [
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **kwargs) for slc in use_slcs
+                             *args, **_get_slice_kwargs(algorithm, kwargs, slc))
+                    for slc in use_slcs
                 ]
             done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
             for f in done:
-- 
2.43.0


From c530f4973589a0b945d1ff05c2460e25a8bb8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:12 +0000
Subject: [PATCH 03/53] fix: use each slice's own rotation center in art,
 project and gridrec

---
 source/libtomo/gridrec/gridrec.c | 10 ++++--
 source/libtomo/recon/art.c       | 19 ++++++++--
 source/libtomo/recon/project.c   | 62 ++++++++++++++++++++++++++------
 source/libtomo/recon/utils.c     | 13 +++++++
 source/libtomo/recon/utils.h     |  4 +++
 5 files changed, 92 insertions(+), 16 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a4cd574..3aff904 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -307,10 +307,14 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     const float tblspcg = 2 * ltbl / L;
     int         iul, iuh, ivl, ivh;
     int         k, k2;
+    int         pair;
 
     // For each slice.
-    for(s = 0; s < dy; s += 2)
+    for(s = 0; s < dy; s += 1 + pair)
     {
+        // Two slices are reconstructed at once if they share the rotation center.
+        pair = (s + 1) < dy && center[s + 1] == center[s];
+
         // Set up table of combined filter-phase factors.
         set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
 
@@ -374,7 +378,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                 // Add data from both slices
                 float              second_sino = 0.0;
                 const unsigned int index       = j + j0;
-                if(__LIKELY((s + 1) < dy))
+                if(__LIKELY(pair))
                 {
                     second_sino = data[index + delta_index];
                 }
@@ -526,7 +530,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                         const float corrn = corrn_u * winv[k + padx];
                         recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
                             corrn * crealf(H[iu][iv]);
-                        if(__LIKELY((s + 1) < dy))
+                        if(__LIKELY(pair))
                         {
                             recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
                                 corrn * cimagf(H[iu][iv]);
diff --git a/source/libtomo/recon/art.c b/source/libtomo/recon/art.c
index 38de3c3..2c20508 100755
--- a/source/libtomo/recon/art.c
+++ b/source/libtomo/recon/art.c
@@ -45,9 +45,10 @@
 #include "libtomo/recon.h"
 #include "utils.h"
 
-void
-art(const float* data, int dy, int dt, int dx, const float* center, const float* theta,
-    float* recon, int ngridx, int ngridy, int num_iter)
+// Slices that share the rotation center center[0].
+static void
+art_slices(const float* data, int dy, int dt, int dx, const float* center,
+           const float* theta, float* recon, int ngridx, int ngridy, int num_iter)
 {
     if(dy == 0 || dt == 0 || dx == 0)
         return;
@@ -166,3 +167,15 @@ art(const float* data, int dy, int dt, int dx, const float* center, const float*
     free(indi);
     free(simdata);
 }
+
+void
+art(const float* data, int dy, int dt, int dx, const float* center, const float* theta,
+    float* recon, int ngridx, int ngridy, int num_iter)
+{
+    for(int s = 0, n; s < dy; s += n)
+    {
+        n = equal_centers(center, s, dy);
+        art_slices(data + s * dt * dx, n, dt, dx, center + s, theta,
+                   recon + s * ngridx * ngridy, ngridx, ngridy, num_iter);
+    }
+}
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aa38e49..dd66d89 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -47,9 +47,10 @@
 
 volatile unsigned long counter;
 
-void
-project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, int dx,
-        const float* center, const float* theta)
+// Slices that share the rotation center center[0].
+static void
+project_slices(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt,
+               int dx, const float* center, const float* theta)
 {
     if(dy == 0 || dt == 0 || dx == 0)
         return;
@@ -137,9 +138,10 @@ project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, i
     free(indi);
 }
 
-void
-project2(const float* objx, const float* objy, int oy, int ox, int oz, float* data,
-         int dy, int dt, int dx, const float* center, const float* theta)
+// Slices that share the rotation center center[0].
+static void
+project2_slices(const float* objx, const float* objy, int oy, int ox, int oz, float* data,
+                int dy, int dt, int dx, const float* center, const float* theta)
 {
     if(dy == 0 || dt == 0 || dx == 0)
         return;
@@ -241,10 +243,11 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     free(indi);
 }
 
-void
-project3(const float* objx, const float* objy, const float* objz, int oy, int ox, int oz,
-         float* data, int dy, int dt, int dx, const float* center, const float* theta,
-         int axis)
+// Slices that share the rotation center center[0].
+static void
+project3_slices(const float* objx, const float* objy, const float* objz, int oy, int ox,
+                int oz, float* data, int dy, int dt, int dx, const float* center,
+                const float* theta, int axis)
 {
     if(dy == 0 || dt == 0 || dx == 0)
         return;
@@ -345,3 +348,42 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     free(dist);
     free(indi);
 }
+
+void
+project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, int dx,
+        const float* center, const float* theta)
+{
+    for(int s = 0, n; s < dy; s += n)
+    {
+        n = equal_centers(center, s, dy);
+        project_slices(obj + s * ox * oz, oy, ox, oz, data + s * dt * dx, n, dt, dx,
+                       center + s, theta);
+    }
+}
+
+void
+project2(const float* objx, const float* objy, int oy, int ox, int oz, float* data,
+         int dy, int dt, int dx, const float* center, const float* theta)
+{
+    for(int s = 0, n; s < dy; s += n)
+    {
+        n = equal_centers(center, s, dy);
+        project2_slices(objx + s * ox * oz, objy + s * ox * oz, oy, ox, oz,
+                        data + s * dt * dx, n, dt, dx, center + s, theta);
+    }
+}
+
+void
+project3(const float* objx, const float* objy, const float* objz, int oy, int ox, int oz,
+         float* data, int dy, int dt, int dx, const float* center, const float* theta,
+         int axis)
+{
+    // Distance between slices perpendicular to the given axis.
+    const int stride = (axis == 0) ? ox * oz : (axis == 1) ? 1 : oz;
+    for(int s = 0, n; s < dy; s += n)
+    {
+        n = equal_centers(center, s, dy);
+        project3_slices(objx + s * stride, objy + s * stride, objz + s * stride, oy, ox,
+                        oz, data + s * dt * dx, n, dt, dx, center + s, theta, axis);
+    }
+}
diff --git a/source/libtomo/recon/utils.c b/source/libtomo/recon/utils.c
index 72c480e..1e389b8 100755
--- a/source/libtomo/recon/utils.c
+++ b/source/libtomo/recon/utils.c
@@ -87,6 +87,19 @@ preprocessing(int ry, int rz, int num_pixels, float center, float* mov, float* g
 
 //======================================================================================//
 
+int
+equal_centers(const float* center, int s, int dy)
+{
+    int n = 1;
+    while(s + n < dy && center[s + n] == center[s])
+    {
+        ++n;
+    }
+    return n;
+}
+
+//======================================================================================//
+
 int
 calc_quadrant(float theta_p)
 {
diff --git a/source/libtomo/recon/utils.h b/source/libtomo/recon/utils.h
index 321403b..2fbca67 100644
--- a/source/libtomo/recon/utils.h
+++ b/source/libtomo/recon/utils.h
@@ -62,6 +62,10 @@ void DLL
      preprocessing(int ngridx, int ngridy, int dz, float center, float* mov, float* gridx,
                    float* gridy);
 
+// Number of consecutive slices from slice s on that share its rotation center.
+int DLL
+    equal_centers(const float* center, int s, int dy);
+
 int DLL
     calc_quadrant(float theta_p);
 
-- 
2.43.0


From b52b4867e71a23845085da8af13d881951257148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:43 +0000
Subject: [PATCH 04/53] fix: gridrec: define the correction factor of the last
 pixel of full-width grids

---
 source/libtomo/gridrec/gridrec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 3aff904..3dbcf52 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -120,6 +120,8 @@ set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int
         norm           = -norm;
         winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
     }
+    // The last pixel of a grid as wide as the padded projections.
+    winv[2 * linv + 1] = -norm / wtbl[ltbl];
 }
 
 void
@@ -248,7 +250,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     __ASSSUME_64BYTES_ALIGNED(H);
     wtbl = malloc_vector_f(ltbl + 1);
     __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
+    winv = malloc_vector_f(pdim);
     __ASSSUME_64BYTES_ALIGNED(winv);
     J_z = malloc_vector_f(pdim2 * dt);
     __ASSSUME_64BYTES_ALIGNED(J_z);
-- 
2.43.0


From 4042439bfc578c409a9aa360e31354cf48cb0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:05 +0000
Subject: [PATCH 05/53] fix: release every work buffer of gridrec, grad, tikh,
 project2 and project3

---
 source/libtomo/gridrec/gridrec.c | 1 +
 source/libtomo/recon/grad.c      | 1 +
 source/libtomo/recon/project.c   | 4 ++++
 source/libtomo/recon/tikh.c      | 1 +
 4 files changed, 7 insertions(+)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 3dbcf52..93a12c8 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -560,6 +560,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     free_vector_c(filphase);
     free_vector_f(winv);
     free_vector_f(work);
+    free_vector_f(work2);
     free_matrix_c(H);
     free_vector_f(J_z);
     free_vector_f(P_z);
diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index 4c44b10..18d6666 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -254,6 +254,7 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
     free(sum_dist);
     free(prox1);
     free(recon0);
+    free(lambda);
     free(grad0);
     free(grad);
 }
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index dd66d89..32bc9ce 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -240,6 +240,8 @@ project2_slices(const float* objx, const float* objy, int oy, int ox, int oz, fl
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
 
@@ -346,6 +348,8 @@ project3_slices(const float* objx, const float* objy, const float* objz, int oy,
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
 
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index f62050b..3f595f1 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -261,6 +261,7 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
     free(sum_dist);
     free(prox1);
     free(recon0);
+    free(lambda);
     free(grad0);
     free(grad);
 }
-- 
2.43.0


From da7bcd578456b338447d3359f544b6a64c971834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:05 +0000
Subject: [PATCH 06/53] fix: vector2, vector3: use each data set's own angles
 and rotation centers

---
 source/libtomo/recon/vector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index daa8b94..96dc917 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -353,7 +353,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -366,7 +366,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -623,7 +623,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -636,7 +636,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -729,7 +729,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center3[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -742,7 +742,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta3[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
-- 
2.43.0


From 77b2ebe79aecca2a443b1496049e394b72d02320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:05 +0000
Subject: [PATCH 07/53] fix: vector: leave pixels that no ray crosses unchanged

---
 source/libtomo/recon/vector.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index 96dc917..1c58a00 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -171,10 +171,13 @@ vector(const float* data, int dy, int dt, int dx, const float* center, const flo
             {
                 for(n = 0; n < ngridy; n++)
                 {
-                    recon1[n + m * ngridy + s * ngridx * ngridy] +=
-                        update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    recon2[n + m * ngridy + s * ngridx * ngridy] +=
-                        update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    if(sum_dist[n + m * ngridy] != 0.0)
+                    {
+                        recon1[n + m * ngridy + s * ngridx * ngridy] +=
+                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
+                        recon2[n + m * ngridy + s * ngridx * ngridy] +=
+                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    }
                 }
             }
 
-- 
2.43.0


From d34dde05a33a9853cd204fc0740e576d0e672d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:14 +0000
Subject: [PATCH 08/53] fix: share views of shared memory by value

The workers of distribute_jobs map the whole shared memory block, so a crop
of a shared array raised and a reversed or transposed one was processed in
the order of the block instead of its own.
---
 source/tomopy/util/dtype.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 510a5c8..5d4e375 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -166,8 +166,10 @@ def as_c_size_t(arr):
 
 
 def as_sharedmem(arr, copy=False):
-    # first check to see if it already a shared array
-    if not copy and is_sharedmem(arr):
+    # first check to see if it already a shared array (and not just a part or
+    # another view of one, because workers see the whole shared memory block)
+    if (not copy and is_sharedmem(arr) and is_contiguous(arr)
+            and arr.size == len(get_shared_mem(arr))):
         return arr
     # get ctype from numpy array
     temp_arr = np.empty((1), dtype=arr.dtype)
-- 
2.43.0


From ec2c4242d34c6dae9be8435c37969d4ad1e6aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:15 +0000
Subject: [PATCH 09/53] fix: distribute_jobs: do not overwrite an input that is
 in shared memory

Without an output array a new one is created, as documented. An input that
was itself the result of an earlier call was overwritten instead.
---
 source/tomopy/util/mproc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f9b5672..f14942b 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -256,8 +256,10 @@ def distribute_jobs(arr,
     shared_shape = []
     shared_out = None
     shared_out_shape = None
-    for arr in arrs:
-        arr_shared = as_sharedmem(arr)
+    for i, arr in enumerate(arrs):
+        # the last array doubles as the output array if none is provided
+        arr_shared = as_sharedmem(
+            arr, copy=out is None and i == len(arrs) - 1)
         shared_arrays.append(get_shared_mem(arr_shared))
         shared_shape.append(arr.shape)
         if out is not None and np.may_share_memory(arr, out) and \
-- 
2.43.0


From ae2062722fa65a48d7557f9d1555a0e6f90b730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:15 +0000
Subject: [PATCH 10/53] fix: distribute_jobs: read each array with its own data
 type

All arrays were read with the type of the last one.
---
 source/tomopy/util/mproc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f14942b..fac7bd2 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -290,13 +290,14 @@ def distribute_jobs(arr,
         else:
             map_args.append((func, args, kwargs, i, axis))
 
-    init_shared(shared_arrays, shared_out, arr.dtype, shared_shape,
+    shared_types = [a.dtype for a in arrs]
+    init_shared(shared_arrays, shared_out, shared_types, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
-                             initargs=(shared_arrays, shared_out, arr.dtype,
+                             initargs=(shared_arrays, shared_out, shared_types,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
             if p._pool:
@@ -376,7 +377,7 @@ def _arg_parser(params):
     global INSHAPE
     global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE, INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
-- 
2.43.0


From 1c7d977ac695f9c7fa05b8f2bdc3d7139458fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:59 +0000
Subject: [PATCH 11/53] fix: get_worker_ncore_slices: use the built-in int

np.int is gone from numpy, so every call without nchunk raised.
---
 source/tomopy/util/mproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index fac7bd2..8649987 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -166,10 +166,10 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
         # calculate number of slices to send to each GPU
         chunk_size = axis_size // ncore
         leftover = axis_size % ncore
-        sizes = np.ones(ncore, dtype=np.int) * chunk_size
+        sizes = np.ones(ncore, dtype=int) * chunk_size
         # evenly distribute leftover across workers
         sizes[:leftover] += 1
-        offsets = np.zeros(ncore+1, dtype=np.int)
+        offsets = np.zeros(ncore+1, dtype=int)
         offsets[1:] = np.cumsum(sizes)
         slcs = [np.s_[offsets[i]:offsets[i+1]]
                 for i in range(offsets.shape[0]-1)]
-- 
2.43.0


From 52a83c11e293c43493ac392f2adcaba898552274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 12/53] fix: normalize_nf: average the dark fields by median

np.median takes no dtype, so averaging='median' raised a TypeError.
---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index c75e513..ca6aadb 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -302,7 +302,7 @@ def normalize_nf(
     if averaging == 'mean':
         dark = np.mean(dark, axis=0, dtype=np.float32)
     elif averaging == 'median':
-        dark = np.median(dark, axis=0, dtype=np.float32)
+        dark = np.median(dark, axis=0).astype(np.float32)
     else:
         raise ValueError(
             f"'averaging' must be 'mean' or 'median' not {averaging}")
-- 
2.43.0


From 0d7d7034ed00017e0335a41727ec0ffb1cebc168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 13/53] fix: median_filter3d: C-order output for any memory
 layout of the input

The output took over the layout of a transposed input, but was filled in C order.
---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 06cc0ae..d462a60 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,7 +385,7 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
-    out = np.empty_like(arr)
+    out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
-- 
2.43.0


From e826caf220aa20bba8983bedca43bbac1f46946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:53 +0000
Subject: [PATCH 14/53] fix: median_filter3d, remove_outlier3d: filter
 converted data as float32

Data of any other type was converted to float32 and then filtered as uint16.
---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index d462a60..4bcd24b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,6 +385,7 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
+        input_type = arr.dtype
     out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
@@ -447,6 +448,7 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
+        input_type = arr.dtype
     out = np.copy(arr, order="C")
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
-- 
2.43.0


From b11bfce2fd30624ba300983afddc7c18ee4a9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:53 +0000
Subject: [PATCH 15/53] fix: remove_outlier1d: index with a tuple

Indexing with a list of slices raises, so the filter never ran.
---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 4bcd24b..0c12895 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -659,9 +659,9 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
             slc[lar_axis] = chnk_slices[i]
             e.submit(
                 scipy.ndimage.median_filter,
-                arr[slc],
+                arr[tuple(slc)],
                 size=filt_size,
-                output=tmp[slc],
+                output=tmp[tuple(slc)],
                 mode="mirror",
             )
 
-- 
2.43.0


From 4b5cfb4c7dae0ce83bce90a3db0c2ff2e832701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:54 +0000
Subject: [PATCH 16/53] fix: sobel_filter: use scipy.ndimage.sobel and index
 with a tuple

The name filters is not defined, so every call raised.
---
 source/tomopy/misc/corr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 0c12895..8b2e635 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -501,7 +501,11 @@ def sobel_filter(arr, axis=0, ncore=None):
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(filters.sobel, arr[slc], output=out[slc])
+            e.submit(
+                scipy.ndimage.sobel,
+                arr[tuple(slc)],
+                output=out[tuple(slc)],
+            )
     return out
 
 
-- 
2.43.0


From 99e89713e6fca96f09e17bee2e68d8d9ffa56a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 17/53] fix: report the failures of the filter threads

The results of the submitted jobs were never looked at, so a failing filter
(for example gaussian_filter with one sigma too many) returned uninitialized
memory.
---
 source/tomopy/misc/corr.py | 82 +++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8b2e635..6fde220 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -115,6 +115,12 @@ def adjust_range(arr, dmin=None, dmax=None):
     return arr
 
 
+def _raise_failure(futures):
+    """Raise the exception of the first job that failed, if there is one."""
+    for future in futures:
+        future.result()
+
+
 def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     """
     Apply Gaussian filter to 3D array along specified axis.
@@ -150,17 +156,21 @@ def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
-                scipy.ndimage.gaussian_filter,
-                arr[tuple(slc)],
-                sigma,
-                order=order,
-                output=out[tuple(slc)],
+            futures.append(
+                e.submit(
+                    scipy.ndimage.gaussian_filter,
+                    arr[tuple(slc)],
+                    sigma,
+                    order=order,
+                    output=out[tuple(slc)],
+                )
             )
+    _raise_failure(futures)
     return out
 
 
@@ -190,16 +200,20 @@ def median_filter(arr, size=3, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
-                scipy.ndimage.median_filter,
-                arr[tuple(slc)],
-                size=(size, size),
-                output=out[tuple(slc)],
+            futures.append(
+                e.submit(
+                    scipy.ndimage.median_filter,
+                    arr[tuple(slc)],
+                    size=(size, size),
+                    output=out[tuple(slc)],
+                )
             )
+    _raise_failure(futures)
     return out
 
 
@@ -497,15 +511,19 @@ def sobel_filter(arr, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
-                scipy.ndimage.sobel,
-                arr[tuple(slc)],
-                output=out[tuple(slc)],
+            futures.append(
+                e.submit(
+                    scipy.ndimage.sobel,
+                    arr[tuple(slc)],
+                    output=out[tuple(slc)],
+                )
             )
+    _raise_failure(futures)
     return out
 
 
@@ -597,16 +615,20 @@ def remove_outlier(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [size] * arr.ndim
     filt_size[axis] = 1
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[axis] = chnk_slices[i]
-            e.submit(
-                scipy.ndimage.median_filter,
-                arr[tuple(slc)],
-                size=filt_size,
-                output=tmp[tuple(slc)],
+            futures.append(
+                e.submit(
+                    scipy.ndimage.median_filter,
+                    arr[tuple(slc)],
+                    size=filt_size,
+                    output=tmp[tuple(slc)],
+                )
             )
+    _raise_failure(futures)
 
     arr = dtype.as_float32(arr)
     tmp = dtype.as_float32(tmp)
@@ -657,17 +679,21 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [1] * arr.ndim
     filt_size[axis] = size
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[lar_axis] = chnk_slices[i]
-            e.submit(
-                scipy.ndimage.median_filter,
-                arr[tuple(slc)],
-                size=filt_size,
-                output=tmp[tuple(slc)],
-                mode="mirror",
+            futures.append(
+                e.submit(
+                    scipy.ndimage.median_filter,
+                    arr[tuple(slc)],
+                    size=filt_size,
+                    output=tmp[tuple(slc)],
+                    mode="mirror",
+                )
             )
+    _raise_failure(futures)
 
     with mproc.set_numexpr_threads(ncore):
         out = ne.evaluate("where(arr-tmp>=dif,tmp,arr)", out=out)
@@ -848,10 +874,12 @@ def remove_ring(
 
     axis_size = rec.shape[0]
     ncore, nchunk = mproc.get_ncore_nchunk(axis_size, ncore, nchunk)
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            e.submit(extern.c_remove_ring, out[slc], *args)
+            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+    _raise_failure(futures)
     return out
 
 
-- 
2.43.0


From a5940cd2761ab48653f92dea555a22824d4c7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 18/53] fix: remove_ring: filter the data into the given output
 array

The rings were removed from the old contents of out instead of rec.
---
 source/tomopy/misc/corr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 6fde220..e0e6778 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -840,6 +840,7 @@ def remove_ring(
         out = rec.copy()
     else:
         out = dtype.as_float32(out)
+        out[:] = rec
 
     dz, dy, dx = rec.shape
 
-- 
2.43.0


From 8cc4a3c3dba82b76de4ca2eef1affd752ef5bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 19/53] fix: remove_outlier1d: accept negative axes

The data could be cut along the filtered axis, which changes the medians at
the cuts.
---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index e0e6778..1913b29 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -672,7 +672,7 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
 
     tmp = np.empty_like(arr)
 
-    other_axes = [i for i in range(arr.ndim) if i != axis]
+    other_axes = [i for i in range(arr.ndim) if i != axis % arr.ndim]
     largest = np.argmax([arr.shape[i] for i in other_axes])
     lar_axis = other_axes[largest]
     ncore, chnk_slices = mproc.get_ncore_slices(arr.shape[lar_axis], ncore=ncore)
-- 
2.43.0


From 29ff7d0516b9ea05efc3115f3b2c948a44c42aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:56 +0000
Subject: [PATCH 20/53] fix: inpainter_morph: 3D median of the values in the
 window

The empty places of the work array were sorted in as zeros, so the median of a
window with few known values was zero.
---
 source/libtomo/misc/inpainter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 80c9cb0..51dce30 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -505,7 +505,7 @@ median_rand_inpainting_3D(bool* M_upd, const float* Output, float* Updated,
             if(method_type == 1)
             {
                 /* inpainting based on the median neighbour */
-                qsort(_values, window_fullength, sizeof(float), floatcomp1);
+                qsort(_values, counter_local, sizeof(float), floatcomp1);
                 median_val     = (counter_local / 2);
                 Updated[index] = _values[median_val];
             }
-- 
2.43.0


From 74eb78615b65e85958b24977a9450245a260dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:56 +0000
Subject: [PATCH 21/53] fix: inpainter_morph: inpaint next to values that
 cancel

Pixels whose known neighbours summed up to zero were never inpainted by the
median and random methods.
---
 source/libtomo/misc/inpainter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 51dce30..442aa35 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -228,7 +228,7 @@ median_rand_inpainting_2D(bool* M_upd, const float* Output, float* Updated,
             }
         }
         /*If we've got usable data in the vicinity then proceed with inpainting */
-        if(vicinity_mean != 0.0F)
+        if(counter_local > 0)
         {
             vicinity_mean = vicinity_mean /
                             counter_local; /* get the mean of values in the vicinity */
@@ -472,7 +472,7 @@ median_rand_inpainting_3D(bool* M_upd, const float* Output, float* Updated,
 
         /* We've got usable data in the vicinity os the neighbourhood then proceed with
          * inpainting */
-        if(vicinity_mean != 0.0F)
+        if(counter_local > 0)
         {
             vicinity_mean = vicinity_mean /
                             counter_local; /* get the mean of values in the vicinity */
-- 
2.43.0


From bf366b8a8ea5fe74bd41ad4cbda3ee956e1cfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:31 +0000
Subject: [PATCH 22/53] fix: inpainter_morph: accept axes of length one

Squeezing the slice also removed other axes of length one.
---
 source/tomopy/misc/corr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 1913b29..29dbbf8 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1134,9 +1134,9 @@ def inpainter_morph(
             # perform 2d inpainting for 3d data using the provided axis
             slices_list = [slice(None), slice(None), slice(None)]
             for m in range(arr.shape[axis]):
-                slices_list[axis] = slice(m,m+1)
-                slice2d = arr[tuple(slices_list)].squeeze()
-                mask2d = mask[tuple(slices_list)].squeeze()
+                slices_list[axis] = m
+                slice2d = arr[tuple(slices_list)]
+                mask2d = mask[tuple(slices_list)]
                 dy, dx = slice2d.shape
                 out2d = np.empty_like(slice2d, order="C")
                 extern.c_inpainter(
-- 
2.43.0


From 958933cfe1d677ad948e16ee4dbe2c809ebd5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 23/53] fix: stripes_detect3d, stripes_mask3d: stay inside of
 small volumes

---
 source/libtomo/prep/stripes_detect3d.c | 82 ++++++++++----------------
 1 file changed, 30 insertions(+), 52 deletions(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b51ec83..141d1ec 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -56,6 +56,19 @@
 /********************************************************************/
 /**********************Supporting Functions**************************/
 /********************************************************************/
+/* Index of the neighbour of i at the given offset in an axis of length dim.
+Outside of the axis the neighbour is mirrored about i; where the mirror image is
+outside too (the axis is shorter than the window) it is i itself. */
+static inline long
+neighbour_index(long i, long offset, long dim)
+{
+    if((i + offset >= 0) && (i + offset < dim))
+        return i + offset;
+    if((i - offset >= 0) && (i - offset < dim))
+        return i - offset;
+    return i;
+}
+
 /* Calculate the forward difference derrivative of the 3D input in the
 direction of the "axis" parameter using the step_size in pixels to skip pixels
 (i.e. step_size = 1 is the classical gradient)
@@ -86,27 +99,21 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 /* Forward differences */
                 if(axis == 0)
                 {
-                    i1 = i + step_size;
-                    if(i1 >= dimX)
-                        i1 = i - step_size;
+                    i1 = neighbour_index(i, step_size, dimX);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)] -
                         input[index];
                 }
                 else if(axis == 1)
                 {
-                    j1 = j + step_size;
-                    if(j1 >= dimY)
-                        j1 = j - step_size;
+                    j1 = neighbour_index(j, step_size, dimY);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i)] -
                         input[index];
                 }
                 else
                 {
-                    k1 = k + step_size;
-                    if(k1 >= dimZ)
-                        k1 = k - step_size;
+                    k1 = neighbour_index(k, step_size, dimZ);
                     output[index] =
                         input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] -
                         input[index];
@@ -142,14 +149,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_plate = 0.0F;
     for(j_m = -radius; j_m <= radius; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = neighbour_index(j, j_m, dimY);
         for(k_m = -radius; k_m <= radius; k_m++)
         {
-            k1 = k + k_m;
-            if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+            k1       = neighbour_index(k, k_m, dimZ);
             newindex = (size_t) (dimX * dimY * k1) + (size_t) (j1 * dimX + i);
             mean_plate += fabsf(input[newindex]);
         }
@@ -160,14 +163,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = neighbour_index(j, j_m, dimY);
         for(i_m = 1; i_m <= radius; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 >= dimX)
-                i1 = i - i_m;
+            i1       = neighbour_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz += fabsf(input[newindex]);
         }
@@ -178,14 +177,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz2 = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = neighbour_index(j, j_m, dimY);
         for(i_m = -radius; i_m <= -1; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 < 0)
-                i1 = i - i_m;
+            i1       = neighbour_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz2 += fabsf(input[newindex]);
         }
@@ -269,25 +264,12 @@ mean_stride3d(const float* input, float* output, long i, long j, long k, long di
 
     index = (size_t) (dimX * dimY * k) + (size_t) (j * dimX + i);
 
-    i1 = i - 1;
-    i2 = i + 1;
-    j1 = j - 1;
-    j2 = j + 1;
-    k1 = k - 1;
-    k2 = k + 1;
-
-    if(i1 < 0)
-        i1 = i2;
-    if(i2 >= dimX)
-        i2 = i1;
-    if(j1 < 0)
-        j1 = j2;
-    if(j2 >= dimY)
-        j2 = j1;
-    if(k1 < 0)
-        k1 = k2;
-    if(k2 >= dimZ)
-        k2 = k1;
+    i1 = neighbour_index(i, -1, dimX);
+    i2 = neighbour_index(i, 1, dimX);
+    j1 = neighbour_index(j, -1, dimY);
+    j2 = neighbour_index(j, 1, dimY);
+    k1 = neighbour_index(k, -1, dimZ);
+    k2 = neighbour_index(k, 1, dimZ);
 
     val1 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)];
     val2 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i2)];
@@ -451,9 +433,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_up = 0;
             for(x = -vertical_length; x <= 0; x++)
             {
-                k_u = k + x;
-                if(k_u < 0)
-                    k_u = k - x;
+                k_u = neighbour_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_u) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_up = 1;
@@ -464,9 +444,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_down = 0;
             for(x = 0; x <= vertical_length; x++)
             {
-                k_d = k + x;
-                if(k_d >= dimZ)
-                    k_d = k - x;
+                k_d = neighbour_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_d) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_down = 1;
-- 
2.43.0


From 3202f19ffc05bf50730ed917fba743c43181439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:25 +0000
Subject: [PATCH 24/53] fix: stripes_detect3d: weights of 0 where there is no
 gradient

---
 source/libtomo/prep/stripes_detect3d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index 141d1ec..a8c2101 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -189,7 +189,8 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
 
     /* calculate the ratio between two means assuming that the mean
     orthogonal to stripes direction should be larger than the mean
-    parallel to it */
+    parallel to it (0 where there is no gradient at all) */
+    output[index] = 0.0F;
     if((mean_horiz >= mean_plate) && (mean_horiz != 0.0F))
         output[index] = mean_plate / mean_horiz;
     if((mean_horiz < mean_plate) && (mean_plate != 0.0F))
-- 
2.43.0


From 0d1696e6f7a50d142658d51cc38485b7096b1009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:25 +0000
Subject: [PATCH 25/53] fix: remove_stripe_ti: correct the projections after
 the last full block

---
 source/tomopy/prep/stripe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 7523f0b..4c80842 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -315,7 +315,9 @@ def _ringb(sino, m, n, step):
     nblock = int(N / step)
     new = np.ones((R, N))
     for k in range(0, nblock):
-        sino_block = mysino[:, k * step:(k + 1) * step]
+        # The last block takes the remaining projections too.
+        stop = (k + 1) * step if k < nblock - 1 else N
+        sino_block = mysino[:, k * step:stop]
         alpha = _get_parameter(sino_block)
         pp = sino_block.mean(1)
 
@@ -324,8 +326,8 @@ def _ringb(sino, m, n, step):
 
         # Update sinogram.
         q.shape = (R, 1)
-        K = np.kron(q, np.ones((1, step)))
-        new[:, k * step:(k + 1) * step] = np.add(sino_block, K)
+        K = np.kron(q, np.ones((1, stop - k * step)))
+        new[:, k * step:stop] = np.add(sino_block, K)
     newsino = new.astype(np.float32)
     return np.transpose(newsino)
 
-- 
2.43.0


From bc886941d2037b811cf36402f8207cd82d9bce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:25 +0000
Subject: [PATCH 26/53] fix: remove_stripe_ti: remove NaN also with blocks

---
 source/tomopy/prep/stripe.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 4c80842..32c65aa 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -305,8 +305,7 @@ def _ringb(sino, m, n, step):
     N = np.size(mysino, 1)
 
     # Remove NaN.
-    pos = np.where(np.isnan(mysino) is True)
-    mysino[pos] = 0
+    mysino[np.isnan(mysino)] = 0
 
     # Kernel & regularization parameter.
     h = _kernel(m, n)
-- 
2.43.0


From fefe53d1181707247879a6a8c1016d7fb3913239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 27/53] fix: pad: accept boolean arrays

---
 source/tomopy/misc/morph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 5d7668b..730f629 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -139,8 +139,7 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
         with mproc.set_numexpr_threads(ncore):
             ne.evaluate("arr", out=out[slc_in])
             if mode == 'constant':
-                np_cast = getattr(np, str(arr.dtype))
-                cval = np_cast(kwargs['constant_values'])
+                cval = arr.dtype.type(kwargs['constant_values'])
                 ne.evaluate("cval", out=out[slc_l])
                 ne.evaluate("cval", out=out[slc_r])
             elif mode == 'edge':
-- 
2.43.0


From dbefe8ce2b81d856dc42c80e5c96c56e89cd5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 28/53] fix: pad: accept a width of zero

---
 source/tomopy/misc/morph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 730f629..4e89f52 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -138,7 +138,9 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
         # Datatype supported by numexpr
         with mproc.set_numexpr_threads(ncore):
             ne.evaluate("arr", out=out[slc_in])
-            if mode == 'constant':
+            if npad == 0:
+                pass  # numexpr does not take empty arrays
+            elif mode == 'constant':
                 cval = arr.dtype.type(kwargs['constant_values'])
                 ne.evaluate("cval", out=out[slc_l])
                 ne.evaluate("cval", out=out[slc_r])
-- 
2.43.0


From 8cb29a9f9a8fa322297d1e4310be1ef0b68c9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 29/53] fix: downsample: keep rows apart when the axis is not a
 multiple of the bin

---
 source/libtomo/misc/morph.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/misc/morph.c b/source/libtomo/misc/morph.c
index 3c31fdd..d12b295 100755
--- a/source/libtomo/misc/morph.c
+++ b/source/libtomo/misc/morph.c
@@ -50,7 +50,7 @@
 DLL void
 downsample(const float* data, int dx, int dy, int dz, int level, int axis, float* out)
 {
-    unsigned           m, n, p, binsize;
+    unsigned           m, n, p, binsize, rest;
     unsigned long long i, j, k, ind;
 
     binsize = pow(2, level);
@@ -81,6 +81,7 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
     }
     else if(axis == 1)
     {
+        rest = dy % binsize;
         dy /= binsize;
         for(m = 0, ind = 0; m < (unsigned) dx; m++)
         {
@@ -97,10 +98,13 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
                     }
                 }
             }
+            // skip the rows that do not fill a bin
+            ind += (unsigned long long) rest * dz;
         }
     }
     else if(axis == 2)
     {
+        rest = dz % binsize;
         dz /= binsize;
         for(m = 0, ind = 0; m < (unsigned) dx; m++)
         {
@@ -116,6 +120,8 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
                         ind++;
                     }
                 }
+                // skip the values that do not fill a bin
+                ind += rest;
             }
         }
     }
-- 
2.43.0


From c23afea2ef134f5c0ea249d44be4df8e06df0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 30/53] fix: sino_360_to_180: weights that add up to one for an
 overlap of one pixel

---
 source/tomopy/misc/morph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 4e89f52..01c1d20 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -342,12 +342,12 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
     out = np.empty((n, dy, 2*dz-overlap), dtype=data.dtype)
 
     if rotation == 'left':
-        weights = np.linspace(0, 1.0, overlap)
+        weights = np.linspace(0, 1.0, overlap) if overlap != 1 else 0.5
         out[:, :, -dz+overlap:] = data[:n, :, overlap:]
         out[:, :, :dz-overlap] = data[n:2*n, :, overlap:][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
-        weights = np.linspace(1.0, 0, overlap)
+        weights = np.linspace(1.0, 0, overlap) if overlap != 1 else 0.5
         out[:, :, :dz-overlap] = data[:n, :, :-overlap]
         out[:, :, -dz+overlap:] = data[n:2*n, :, :-overlap][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, -overlap:] + (weights*data[n:2*n, :, -overlap:])[:, :, ::-1]
-- 
2.43.0


From 970708b131f68b85df4ea5ba045f9ae535711803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 31/53] fix: sino_360_to_180: accept no overlap with the
 rotation axis on the right

---
 source/tomopy/misc/morph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 01c1d20..0b010ac 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -348,9 +348,9 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
         weights = np.linspace(1.0, 0, overlap) if overlap != 1 else 0.5
-        out[:, :, :dz-overlap] = data[:n, :, :-overlap]
-        out[:, :, -dz+overlap:] = data[n:2*n, :, :-overlap][:, :, ::-1]
-        out[:, :, dz-overlap:dz] = weights*data[:n, :, -overlap:] + (weights*data[n:2*n, :, -overlap:])[:, :, ::-1]
+        out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
+        out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
+        out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
     return out
 
 # For backward compatibility
-- 
2.43.0


From 08d2995ff12932cd5271093bb9d57ea8ea6ac5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 32/53] fix: trim_sinogram: integer bounds of the slices

---
 source/tomopy/misc/morph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 0b010ac..299fc7e 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -286,14 +286,14 @@ def trim_sinogram(data, center, x, y, diameter):
     l1 = center - diameter / 2
     l2 = center - diameter / 2 + rad
 
-    roidata = np.ones((dx, dy, diameter), dtype='float32')
+    roidata = np.ones((dx, dy, int(diameter)), dtype='float32')
 
     delphi = np.pi / dx
     for m in range(dx):
 
         # Calculate start end coordinates for each row of the sinogram.
-        ind1 = np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1)
-        ind2 = np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter)
+        ind1 = int(np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1))
+        ind2 = int(np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter))
 
         # Make sure everythin is inside the frame.
         if ind1 < 0:
-- 
2.43.0


From d15de20e960d7290aedb6a0c528e6fcbb06bb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:33 +0000
Subject: [PATCH 33/53] fix: remove_ring: stay inside of the polar image when
 the window is wider

---
 source/libtomo/misc/remove_ring.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 1768f39..10ea16b 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -285,12 +285,10 @@ median_filter_fast_1D(float*** filtered_image, float*** image, int start_row,
                     {
                         adjusted_row -= height / 2;
                     }
-                    median_array[n + kernel_rad] = image[0][adjusted_row][adjusted_col];
-                }
-                else
-                {
-                    median_array[n + kernel_rad] = image[0][row][adjusted_col];
                 }
+                // There is nothing beyond the end of a row
+                median_array[n + kernel_rad] =
+                    (adjusted_col < width) ? image[0][adjusted_row][adjusted_col] : 0.0;
                 position_array[n + kernel_rad] = n + kernel_rad;
             }
             // Sort the array
-- 
2.43.0


From 3382ee4b838a39fbc328cb231462e73f49d8bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:33 +0000
Subject: [PATCH 34/53] fix: remove_ring: stay inside of a window of one value

---
 source/libtomo/misc/remove_ring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 10ea16b..24a6c75 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -221,6 +221,10 @@ quick_sort_2_arrays(float* median_array, int* position_array, int left, int righ
 void
 bubble_2_arrays(float* median_array, int* position_array, int index, int length)
 {
+    if(length < 2)
+    {
+        return;
+    }
     if(index > 0 && index < length - 1)
     {
         if(median_array[index] < median_array[index - 1])
-- 
2.43.0


From dd823e894a2df329e5c6ecc2b40d3062ed1cbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:25 +0000
Subject: [PATCH 35/53] fix: remove_ring: leave slices alone when no ring fits
 into them

---
 source/libtomo/misc/remove_ring.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 24a6c75..9c315b8 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -614,6 +614,13 @@ remove_ring(float* data, float center_x, float center_y, int dx, int dy, int dz,
     int     r_scale    = 1;
     int     ang_scale  = 1;
     int     m_azi;
+
+    // No ring fits between the center and the edge
+    if(min_distance_to_edge(center_x, center_y, dx, dy) < 1)
+    {
+        return;
+    }
+
     float** polar_image = 0;
     float** ring_image  = 0;
     float** image       = (float**) calloc(dy, sizeof(float*));
-- 
2.43.0


From 9c833fd184782d8308ef7f9e72158f80b5a6fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:34 +0000
Subject: [PATCH 36/53] fix: retrieve_phase: keep the projection when no
 padding is needed

---
 source/tomopy/prep/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index e1be769..0e7018e 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -137,9 +137,9 @@ def _retrieve_phase(tomo, phase_filter, px, py, prj, pad):
     for m in range(num_jobs):
         prj[px:dy + px, py:dz + py] = tomo[m]
         prj[:px] = prj[px]
-        prj[-px:] = prj[-px-1]
+        prj[px + dy:] = prj[px + dy - 1]
         prj[:, :py] = prj[:, py][:, np.newaxis]
-        prj[:, -py:] = prj[:, -py-1][:, np.newaxis]
+        prj[:, py + dz:] = prj[:, py + dz - 1][:, np.newaxis]
         fproj = fft2(prj, extra_info=num_jobs)
         fproj *= normalized_phase_filter
         proj = np.real(ifft2(fproj, extra_info=num_jobs, overwrite_input=True))
-- 
2.43.0


From 2d3ac5c8d5d9bff71f94bb1da91f0b440aa11357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:48 +0000
Subject: [PATCH 37/53] fix: retrieve_phase: align the filter with the spectrum
 of odd sizes

---
 source/tomopy/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index 0e7018e..1ee31b4 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -116,7 +116,7 @@ def retrieve_phase(
     w2 = _reciprocal_grid(pixel_size, dy + 2 * py, dz + 2 * pz)
 
     # Filter in Fourier space.
-    phase_filter = np.fft.fftshift(
+    phase_filter = np.fft.ifftshift(
         _paganin_filter_factor(energy, dist, alpha, w2))
 
     prj = np.full((dy + 2 * py, dz + 2 * pz), val, dtype='float32')
-- 
2.43.0


From 22aec28d4f1d737d2f820c70fca77c89bd113658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:51 +0000
Subject: [PATCH 38/53] fix: hand contiguous memory to the C functions

---
 source/tomopy/util/dtype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 5d4e375..4458855 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -119,6 +119,8 @@ def as_uint8(arr):
 
 
 def as_c_float_p(arr):
+    # the C functions know nothing about strides
+    arr = np.require(arr, requirements='C')
     c_float_p = ctypes.POINTER(ctypes.c_float)
     return arr.ctypes.data_as(c_float_p)
 
@@ -144,7 +146,7 @@ def as_c_long(arr):
     return ctypes.c_long(arr)
 
 def as_c_int_p(arr):
-    arr = arr.astype(np.intc, copy=False)
+    arr = np.require(arr, dtype=np.intc, requirements='C')
     c_int_p = ctypes.POINTER(ctypes.c_int)
     return arr.ctypes.data_as(c_int_p)
 
-- 
2.43.0


From eb43d3301390e22b6adae496cd58fda48610698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:08 +0000
Subject: [PATCH 39/53] fix: add_gaussian, add_salt_pepper: leave the input
 alone

---
 source/tomopy/sim/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 765051f..1d30f80 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -125,7 +125,7 @@ def add_gaussian(tomo, mean=0, std=None):
     ndarray
         3D tomographic data after Gaussian noise added.
     """
-    tomo = dtype.as_ndarray(tomo)
+    tomo = np.array(tomo)
     if std is None:
         std = tomo.max() * 0.05
     dx, dy, dz = tomo.shape
@@ -199,7 +199,7 @@ def add_salt_pepper(tomo, prob=0.01, val=None):
     ndarray
         3D tomographic data after salt and pepper noise added.
     """
-    tomo = dtype.as_ndarray(tomo)
+    tomo = np.array(tomo)
     dx, dy, dz = tomo.shape
     ind = np.random.rand(dx, dy, dz) < prob
     if val is None:
-- 
2.43.0


From 9f8528e92412e64a31f4744dc9b204e4b249ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:08 +0000
Subject: [PATCH 40/53] fix: calc_intensity: keep the order of the scan in the
 far field

---
 source/tomopy/sim/propagate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index efe6e4f..3c8ba4c 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -214,5 +214,6 @@ def calc_intensity(probe, proj, shift_x=None, shift_y=None, mode='near'):
     if mode == 'near':
         intensity = abs(psi) ** 2
     elif mode == 'far':
-        intensity = abs(np.fft.fftshift(np.fft.fft2(psi))) ** 2
+        intensity = abs(
+            np.fft.fftshift(np.fft.fft2(psi), axes=(-2, -1))) ** 2
     return intensity
-- 
2.43.0


From 05d0db88dbc626064e57fe8ec2042e729091c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 41/53] fix: find_center, write_center: apply the ratio of the
 circular mask

---
 source/tomopy/recon/rotation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 4f5aea9..3e1f295 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -137,7 +137,7 @@ def find_center(
         tomo_ind = tomo[:, ind:ind + 1, :]
 
     hmin, hmax = _adjust_hist_limits(
-        tomo_ind, theta, mask, sinogram_order)
+        tomo_ind, theta, mask, ratio, sinogram_order)
 
     # Magic is ready to happen...
     res = minimize(
@@ -148,7 +148,7 @@ def find_center(
     return res.x
 
 
-def _adjust_hist_limits(tomo_ind, theta, mask, sinogram_order):
+def _adjust_hist_limits(tomo_ind, theta, mask, ratio, sinogram_order):
     # Make an initial reconstruction to adjust histogram limits.
     rec = recon(tomo_ind,
                 theta,
@@ -157,7 +157,7 @@ def _adjust_hist_limits(tomo_ind, theta, mask, sinogram_order):
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Adjust histogram boundaries according to reconstruction.
     return _adjust_hist_min(rec.min()), _adjust_hist_max(rec.max())
@@ -193,7 +193,7 @@ def _find_center_cost(
         algorithm='gridrec')
 
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     hist, e = np.histogram(rec, bins=64, range=[hmin, hmax])
     hist = hist.astype('float32') / rec.size + 1e-12
@@ -568,7 +568,7 @@ def write_center(
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Save images to a temporary folder.
     dpath = os.path.abspath(dpath)
-- 
2.43.0


From 71565dda5dc7e6621a31597bc875a9953949e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 42/53] fix: write_center: accept the algorithms without a
 filter

---
 source/tomopy/recon/rotation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 3e1f295..7506705 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -60,7 +60,7 @@ from skimage.registration import phase_cross_correlation
 
 from tomopy.misc.corr import circ_mask
 from tomopy.misc.morph import downsample
-from tomopy.recon.algorithm import recon
+from tomopy.recon.algorithm import allowed_recon_kwargs, recon
 import tomopy.util.dtype as dtype
 from tomopy.util.misc import fft2, write_tiff
 from tomopy.util.mproc import distribute_jobs
@@ -557,14 +557,20 @@ def write_center(
         else:
             stack[m] = tomo[:, ind, :]
 
+    # The iterative algorithms have no filter.
+    kwargs = {}
+    if (not isinstance(algorithm, str)
+            or 'filter_name' in allowed_recon_kwargs.get(algorithm, ())):
+        kwargs['filter_name'] = filter_name
+
     # Reconstruct the same slice with a range of centers.
     rec = recon(stack,
                 theta,
                 center=center,
                 sinogram_order=True,
                 algorithm=algorithm,
-                filter_name=filter_name,
-                nchunk=1)
+                nchunk=1,
+                **kwargs)
 
     # Apply circular mask.
     if mask is True:
-- 
2.43.0


From 11e12004787a539fa80ea4691292d7072d5cb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 43/53] fix: mask_empty_slice: accept projections of whole
 numbers

---
 source/tomopy/recon/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 7506705..32e9c86 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -604,10 +604,10 @@ def mask_empty_slice(tomo, threshold=0.25):
         a mask indicate the emptyness of each layer
     """
     projs_sum = np.sum(tomo, axis=0)
-    projs_sum /= projs_sum.max()
+    projs_sum = projs_sum / projs_sum.max()
 
     projs_sumsum = np.sum(projs_sum, axis=0)
-    projs_sumsum /= projs_sumsum.max()
+    projs_sumsum = projs_sumsum / projs_sumsum.max()
 
     stds = np.array([np.std(projs_sum[i, :])
                      for i in range(projs_sum.shape[0])])
-- 
2.43.0


From 431283ab6529ba05fad72c666d728ea65191a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 44/53] fix: recon: restore TOMOPY_PYTHON_THREADS when the
 algorithm fails

---
 source/tomopy/recon/algorithm.py | 82 ++++++++++++++++----------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index f244637..7e56db5 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -434,48 +434,48 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     # this is used internally to prevent oversubscription
     os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
 
-    if ncore == 1:
-        for slc in use_slcs:
-            # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args,
-                      **_get_slice_kwargs(algorithm, kwargs, slc))
-    else:
-        # execute recon on ncore processes. Accelerated methods have internal
-        # thread-pool and NVIDIA NPP library does not support simulatenously
-        # leveraging multiple devices within the same process
-        if "accelerated" in kwargs and kwargs["accelerated"]:
-            futures = []
-            with cf.ProcessPoolExecutor(ncore) as e:
-                for idx, slc in enumerate(use_slcs):
-                    futures.append(
-                        e.submit(_run_accel_algorithm, idx, algorithm,
-                                 tomo[slc], center[slc], recon[slc], *args,
-                                 **kwargs))
-
-            for f, slc in zip(futures, use_slcs):
-                if f.exception() is not None:
-                    raise f.exception()
-                recon[slc] = f.result()
+    try:
+        if ncore == 1:
+            for slc in use_slcs:
+                # run in this thread (useful for debugging)
+                algorithm(tomo[slc], center[slc], recon[slc], *args,
+                          **_get_slice_kwargs(algorithm, kwargs, slc))
         else:
-            # execute recon on ncore threads
-            with cf.ThreadPoolExecutor(ncore) as e:
-                futures = [
-                    e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **_get_slice_kwargs(algorithm, kwargs, slc))
-                    for slc in use_slcs
-                ]
-            done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
-            for f in done:
-                if f.exception() is not None:
-                    raise f.exception()
-
-
-    if pythreads is not None:
-        # reset to default
-        os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-    elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-        # if no default set, then
-        del os.environ["TOMOPY_PYTHON_THREADS"]
+            # execute recon on ncore processes. Accelerated methods have internal
+            # thread-pool and NVIDIA NPP library does not support simulatenously
+            # leveraging multiple devices within the same process
+            if "accelerated" in kwargs and kwargs["accelerated"]:
+                futures = []
+                with cf.ProcessPoolExecutor(ncore) as e:
+                    for idx, slc in enumerate(use_slcs):
+                        futures.append(
+                            e.submit(_run_accel_algorithm, idx, algorithm,
+                                     tomo[slc], center[slc], recon[slc], *args,
+                                     **kwargs))
+
+                for f, slc in zip(futures, use_slcs):
+                    if f.exception() is not None:
+                        raise f.exception()
+                    recon[slc] = f.result()
+            else:
+                # execute recon on ncore threads
+                with cf.ThreadPoolExecutor(ncore) as e:
+                    futures = [
+                        e.submit(algorithm, tomo[slc], center[slc], recon[slc],
+                                 *args, **_get_slice_kwargs(algorithm, kwargs, slc))
+                        for slc in use_slcs
+                    ]
+                done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
+                for f in done:
+                    if f.exception() is not None:
+                        raise f.exception()
+    finally:
+        if pythreads is not None:
+            # reset to default
+            os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
+        elif os.environ.get("TOMOPY_PYTHON_THREADS"):
+            # if no default set, then
+            del os.environ["TOMOPY_PYTHON_THREADS"]
 
     return recon
 
-- 
2.43.0


From 6f313a4c2f26e5753013668ebf7aa38d3078d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 45/53] fix: recon: keep the table of allowed keywords as it is

---
 source/tomopy/recon/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 7e56db5..2ac30a0 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -275,7 +275,8 @@ def recon(tomo,
 
         allowed_kwargs = copy.copy(allowed_recon_kwargs)
         if algorithm in allowed_accelerated_kwargs:
-            allowed_kwargs[algorithm] += allowed_accelerated_kwargs[algorithm]
+            allowed_kwargs[algorithm] = (allowed_kwargs[algorithm] +
+                                         allowed_accelerated_kwargs[algorithm])
 
         # Check whether we have an allowed method
         if algorithm not in allowed_kwargs:
-- 
2.43.0


From efd326e3cf55ccc3af62665b59115ed8bce40159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 46/53] fix: gridrec read outside of its tables for grids wider
 than the padded projections

---
 source/libtomo/gridrec/gridrec.c | 4 ++--
 source/tomopy/recon/algorithm.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 93a12c8..26a126b 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -224,8 +224,8 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                               0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
                               -0.1295941E-05, 0.3817796E-07 };
 
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
+    // Compute pdim = next power of 2 >= dx, ngridx and ngridy
+    for(pdim = 16; pdim < dx || pdim < ngridx || pdim < ngridy; pdim *= 2)
         ;
 
     const int pdim2 = pdim >> 1;
diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2ac30a0..5eab7ac 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -189,7 +189,8 @@ def recon(tomo,
         'custom'
             A numpy array of size `next_power_of_2(num_detector_columns)/2`
             specifying a custom filter in Fourier domain. The first element
-            of the filter should be the zero-frequency component.
+            of the filter should be the zero-frequency component. For grids
+            wider than the detector use the grid size instead.
         'custom2d'
             A numpy array of size `num_projections*next_power_of_2(num_detector_columns)/2`
             specifying a custom angle-dependent filter in Fourier domain. The first element
-- 
2.43.0


From 6c3b6666bd2187f61541a1e7ccacf3d0e4302bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:57 +0000
Subject: [PATCH 47/53] fix: normalize_nf: use the nearest flats for odd
 distances between them

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index ca6aadb..6c727ab 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -325,7 +325,7 @@ def normalize_nf(
         # chunking the total normalization and each chunked normalization
         tstart = 0 if m == 0 else tend
         tend = total_tomo if m >= num_flats-1 \
-            else int(np.round((flat_loc[m+1]-loc)/2)) + loc
+            else int((flat_loc[m+1]-loc+1) // 2) + loc
         tomo_l = tomo[tstart:tend]
         out_l = out[tstart:tend]
         with mproc.set_numexpr_threads(ncore):
-- 
2.43.0


From f164a234a34b821970390c73359a56822efd6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:44 +0000
Subject: [PATCH 48/53] fix: astra: report failures of reconstructions on GPUs

---
 source/tomopy/recon/wrappers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 2d8cfa2..2054c8a 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -155,9 +155,14 @@ def astra(tomo, center, recon, theta, **kwargs):
         _, slcs = mproc.get_ncore_slices(nslices, ngpu)
         # execute recon on a thread per GPU
         with cf.ThreadPoolExecutor(ngpu) as e:
-            for gpu, slc in zip(gpu_list, slcs):
+            futures = [
                 e.submit(astra_rec, tomo[slc], center[slc], recon[slc],
-                            theta, vol_geom, niter, proj_type, gpu, opts)
+                         theta, vol_geom, niter, proj_type, gpu, opts)
+                for gpu, slc in zip(gpu_list, slcs)
+            ]
+        # a failure on any GPU is a failure of the reconstruction
+        for f in futures:
+            f.result()
     else:
         astra_rec(tomo, center, recon, theta, vol_geom, niter,
                            proj_type, None, opts)
-- 
2.43.0


From eabec2179675e75f34308331815f6fda8c731c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 49/53] fix: align: leave the projections of the caller as they
 are

Scaling for the registration divided them in place by their largest magnitude.
---
 source/tomopy/prep/alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index abc70a9..49948f0 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -154,7 +154,7 @@ def align_seq(
     """
 
     # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
+    prj, scl = scale(prj.copy())
 
     # Shift arrays
     sx = np.zeros((prj.shape[0]))
@@ -281,7 +281,7 @@ def align_joint(
     """
 
     # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
+    prj, scl = scale(prj.copy())
 
     # Shift arrays
     sx = np.zeros((prj.shape[0]))
-- 
2.43.0


From 6c036cf640ca7c2c4b6cdc25f44a62090e3449a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 50/53] fix: slit corners: search the upper right quadrant of
 images that are not square

Rows and columns were exchanged.
---
 source/tomopy/prep/alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 49948f0..aa529b7 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -624,7 +624,7 @@ def find_slits_corners_aps_1id(img,
                      Quadrant(img=img[cnt[1]:, cnt[0]:],
                               col_func=np.argmin, row_func=np.argmin),
                      # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[0], cnt[1]:],
+                     Quadrant(img=img[0:cnt[1], cnt[0]:],
                               col_func=np.argmin, row_func=np.argmax),
                      ]
         # the origin in each quadrants ==> easier to set it here
@@ -632,7 +632,7 @@ def find_slits_corners_aps_1id(img,
                                     [0, cnt[1]],  # lower left,  2nd quadrant
                                     # lower right, 3rd quadrant
                                     [cnt[0], cnt[1]],
-                                    [cnt[1], 0],  # upper right, 4th quadrant
+                                    [cnt[0], 0],  # upper right, 4th quadrant
                                     ])
         # init four corners
         cnrs = np.zeros((4, 2))
-- 
2.43.0


From 69dcb6b59ff065e3edd7dfb1dc69b055a4663f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 51/53] fix: detector drift: give up when all kernels have been
 tried

The last check came one step late and failed with an IndexError.
---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index aa529b7..36459ed 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -819,7 +819,7 @@ def detector_drift_adjust_aps_1id(imgstacks,
                  if not cnr_found]
         # NOTE:
         #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
+        if counter >= len(kernels):
             # we are giving up here...
             for idx, n_img in enumerate(nlist):
                 proj_cnrs[n_img, :, :] = slit_cnr_ref
-- 
2.43.0


From 759dbe27923630cf2d2c396c15530365c30555ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 52/53] fix: detector drift: move images back instead of
 further away

affine_transform maps pixels of its result (row, column) to those of the
image, so it needs the transform of the reference corners (x, y) to those of
the image, with its axes exchanged.
---
 source/tomopy/prep/alignment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 36459ed..453ac2e 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -851,9 +851,13 @@ def detector_drift_adjust_aps_1id(imgstacks,
 
     # -- calculate affine transformation (fast)
     img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
+    # from pixels of the corrected images (row, col) to those of the originals
+    img_sample_F = np.ones((imgstacks.shape[0], 3, 3))
     for n_img in range(imgstacks.shape[0]):
         img_correct_F[n_img, :, :] = calc_affine_transform(
             proj_cnrs[n_img, :, :], slit_cnr_ref)
+        img_sample_F[n_img, :, :] = calc_affine_transform(
+            slit_cnr_ref[:, ::-1], proj_cnrs[n_img, :, ::-1])
 
     # -- apply affine transformation (slow)
     tmp = []
@@ -863,9 +867,9 @@ def detector_drift_adjust_aps_1id(imgstacks,
                                 # input image
                                 imgstacks[n_img, :, :],
                                 # rotation matrix
-                                img_correct_F[n_img, 0:2, 0:2],
+                                img_sample_F[n_img, 0:2, 0:2],
                                 # offset vector
-                                offset=img_correct_F[n_img, 0:2,  2],
+                                offset=img_sample_F[n_img, 0:2,  2],
                                 )
                        )
     imgstacks = np.stack([me.result() for me in tmp], axis=0)
-- 
2.43.0


From 7e91c202e0e32aa259aa453b23d07bda4c92c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 53/53] fix: cumulative distribution ends at one

---
 source/tomopy/misc/npmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/npmath.py b/source/tomopy/misc/npmath.py
index cd02bc4..42e14d8 100644
--- a/source/tomopy/misc/npmath.py
+++ b/source/tomopy/misc/npmath.py
@@ -115,7 +115,7 @@ def discrete_cdf(data, steps=None):
     # calculate the cumulative density
     xx = np.tile(x, (2, 1)).flatten(order='F')
     y = np.arange(len(x))
-    yy = np.vstack((y, y + 1)).flatten(order='F') / float(y[-1])
+    yy = np.vstack((y, y + 1)).flatten(order='F') / float(len(x))
 
     return xx, yy
 
-- 
2.43.0

