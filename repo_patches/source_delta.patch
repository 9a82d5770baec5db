From d5ee9306da3529b0a625f07be3f19f3b7412d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:46 +0000
Subject: [PATCH 01/37] fix: keep searching deeper refractors after one that is
 too slow (first arrivals)

A refracting layer whose critical angle makes the legs slow does not rule out
faster layers further away, but the loop stopped there and missed the true
first arrival.
---
 pygrt/C_extension/src/common/travt.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index 8d741cb..fc1f29b 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -209,9 +209,6 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // m到imin的双边
@@ -236,9 +233,6 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // printf("up m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
@@ -321,9 +315,6 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // m到imin的双边
@@ -348,9 +339,6 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // printf("down m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
-- 
2.43.0


From 413aa98c6a20a5dcb5222390bf0cee72340e332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:46 +0000
Subject: [PATCH 02/37] fix: account for the remaining distance of the direct
 ray (first arrivals)

When a point lies on an interface, on its fast side, the slowness is bounded
and the shooting cannot reach the distance: the time returned was that of a
shorter ray. Add slowness times the remaining distance, which also corrects
the residual of the shooting.
---
 pygrt/C_extension/src/common/travt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index fc1f29b..bde7110 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -103,7 +103,7 @@ real_t grt_compute_travt1d(
         }
         // 初始化一些迭代变量
         real_t pmin=0.0, pmax=pmax0;
-        real_t p;
+        real_t p = 0.0;
         real_t s, c, v, h;
         real_t x = 0.0;
         real_t t = 0.0;
@@ -138,7 +138,8 @@ real_t grt_compute_travt1d(
             // printf("iter=%d, t=%f\n", iter, t);
         } // 结束迭代
         
-        travt = t;
+        // 打靶残差按慢度修正。若慢度已达上限仍未到达震中距（如震源恰在界面的快速一侧），剩余部分沿界面传播
+        travt = t + p*(dist - x);
 
         // printf("direct wave in different layer, travt=%f\n", travt);
     }
-- 
2.43.0


From a9dd3db29f7511e67847de0f64bdf905c2a30ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:54 +0000
Subject: [PATCH 03/37] fix: use the integration limit consistently when DCM is
 combined with FIM or SAFIM

---
 pygrt/C_extension/src/integral/dwm.c           | 2 +-
 pygrt/C_extension/src/integral/integ_process.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/dwm.c b/pygrt/C_extension/src/integral/dwm.c
index a5e2a21..5cacb3b 100644
--- a/pygrt/C_extension/src/integral/dwm.c
+++ b/pygrt/C_extension/src/integral/dwm.c
@@ -59,7 +59,7 @@ real_t grt_discrete_integ(
         }
 
         if(K->applyDCM){
-            grt_int_dcm_revision(kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
+            grt_int_dcm_revision(K->kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
         }
 
         // 记录积分核函数
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index 9945af0..b479d79 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -130,7 +130,7 @@ K_INTEG * grt_wavenumber_integral(
         if(mstat->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
     }
     else if(Kproc->cvgmet == K_INTEG_CONVERG_DCM){
-        grt_dcm_correction(nr, rs, Kproc->dk, kcut, Kint, !isFilon);
+        grt_dcm_correction(nr, rs, Kproc->dk, Kproc->kmax, Kint, !isFilon);
     }
 
 
-- 
2.43.0


From 1cf1c19510fdae160d7b9f0ed4f04afdb31755b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:54 +0000
Subject: [PATCH 04/37] fix: do not stop the kmax search on the low-wavenumber
 plateau at equal source and receiver depths

---
 pygrt/C_extension/src/integral/kmax.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pygrt/C_extension/src/integral/kmax.c b/pygrt/C_extension/src/integral/kmax.c
index 3b8628d..e6ab921 100644
--- a/pygrt/C_extension/src/integral/kmax.c
+++ b/pygrt/C_extension/src/integral/kmax.c
@@ -178,11 +178,25 @@ static real_t _decay_constant(
     return kmax;
 }
 
+/**
+ * 震源与场点同深时，核函数在远小于最近界面距离倒数的波数段也近似为常数（仅反映深部结构），
+ * 因此只有波数超过该距离对应的量级后才允许判定其已衰减到常数
+ */
+static real_t _kmax_low_interface(const MODEL1D *mod1d, real_t kmax_low)
+{
+    for(size_t i = 0; i < mod1d->n; ++i){
+        real_t dz = fabs(mod1d->Dep[i] - mod1d->depsrc);
+        if(dz > 0.0)  kmax_low = GRT_MAX(kmax_low, PI / dz);
+    }
+    return kmax_low;
+}
+
 real_t grt_predict_kmax(
     MODEL1D_STATE *mstat, GRT_KernelFunc kerfunc,
     real_t kmax_init, real_t kmax_low, real_t kmax_ref, size_t *Ncount)
 {
     if(mstat->mod1d->depsrc == mstat->mod1d->deprcv){
+        kmax_low = _kmax_low_interface(mstat->mod1d, kmax_low);
         return _decay_constant(mstat, kerfunc, kmax_init, kmax_low, kmax_ref, Ncount);
     } else {
         return _decay_zero(mstat, kerfunc, kmax_init, kmax_low, kmax_ref, Ncount);
-- 
2.43.0


From 0c3c335fe15fa9543b9843288c57c488089338bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:27 +0000
Subject: [PATCH 05/37] fix: convolve correctly with time functions longer than
 the seismogram

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 13 ++++++++-----
 pygrt/C_extension/src/dynamic/signals.c |  3 ++-
 pygrt/utils.py                          |  2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index c81057a..7e53056 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -927,23 +927,26 @@ static void syn_postprocess_trace(SACTRACE *sac, SACTRACE *tfsac, int int_times,
 
     if(tfsac != NULL){
         float wI = sac->hd.user0;
+        // 时间函数可能比地震图更长，须对整个时间函数做衰减
+        int tfnt = tfsac->hd.npts;
+        float *tfarr = (float *)calloc(tfnt, sizeof(float));
         float fac = 1.0f;
         float dfac = expf(-wI * dt);
-        for(int n = 0; n < nt; ++n){
-            sac->data[n] *= fac;
-            if(n < tfsac->hd.npts) tfsac->data[n] *= fac;
+        for(int n = 0; n < nt || n < tfnt; ++n){
+            if(n < nt)    sac->data[n] *= fac;
+            if(n < tfnt)  tfarr[n] = tfsac->data[n] * fac;
             fac *= dfac;
         }
 
         float *convarr = (float *)calloc(nt, sizeof(float));
-        grt_oaconvolve(sac->data, nt, tfsac->data, tfsac->hd.npts, convarr, nt, true);
+        grt_oaconvolve(sac->data, nt, tfarr, tfnt, convarr, nt, true);
         fac = 1.0f;
         dfac = expf(wI * dt);
         for(int n = 0; n < nt; ++n){
             sac->data[n] = convarr[n] * fac * dt;
-            if(n < tfsac->hd.npts) tfsac->data[n] *= fac;
             fac *= dfac;
         }
+        GRT_SAFE_FREE_PTR(tfarr);
         GRT_SAFE_FREE_PTR(convarr);
     }
 
diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index 849b3b0..a139e58 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -137,7 +137,8 @@ void grt_oaconvolve(float *x, int nx, float *h, int nh, float *y, int ny, bool i
         for(int n=0; n<ny; ++n) {
             y[n] = 0.0;
             for(int k=0; k<nh; ++k) {
-                y[n] += x[(n - k + nx)%nx] * h[k];
+                // h 可能比 x 更长，索引需取非负余数
+                y[n] += x[((n - k)%nx + nx)%nx] * h[k];
             }
         }
     } else {
diff --git a/pygrt/utils.py b/pygrt/utils.py
index 8eb5943..8cfc954 100755
--- a/pygrt/utils.py
+++ b/pygrt/utils.py
@@ -404,7 +404,7 @@ def stream_convolve(st0: Stream, signal0: np.ndarray, inplace: bool = True) -> S
             npts = trace.stats.npts
             w_i = trace.stats.sac["user0"]
             factor = np.exp(np.arange(npts) * dt * w_i)
-            adjusted_signal = signal / factor[: len(signal)]
+            adjusted_signal = signal * np.exp(-np.arange(len(signal)) * dt * w_i)
             data[:] /= factor
             data1 = np.pad(data, (len(signal) - 1, 0), mode="wrap")
             data[:] = oaconvolve(data1, adjusted_signal, mode="valid")[:npts] * dt
-- 
2.43.0


From 126906a2ed3fc395c94a47c75996077c02dd9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 06/37] fix: select Green's functions at depths and distances
 that single precision headers cannot hold exactly

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index 7e53056..d81e772 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -7,6 +7,8 @@
  * 
  */
 
+#include <float.h>
+
 #include "grt.h"
 
 // 防止被替换为虚数单位
@@ -571,6 +573,13 @@ static char *find_sac_in_dir(const char *dirpath)
 }
 
 
+/** 头段变量为单精度，比较时在绝对容差之外还须容许其舍入误差 */
+static bool match_header_value(const real_t header, const real_t value, const real_t tolerance)
+{
+    return fabs(header - value) <= tolerance + FLT_EPSILON * fabs(value);
+}
+
+
 static bool real_value_exists(const real_t *values, size_t nvalues, real_t value, const real_t tolerance)
 {
     for(size_t i = 0; i < nvalues; ++i){
@@ -703,9 +712,9 @@ static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
         }
 
         SACTRACE *sac = grt_read_SACTRACE(sample, true);
-        bool depth_match = fabs(sac->hd.evdp - Ctrl->Depth.depsrc) <= match_tolerance
-            && fabs((-sac->hd.stel * 1e-3) - Ctrl->Depth.deprcv) <= match_tolerance;
-        bool dist_match = fabs(sac->hd.dist - Ctrl->R.dist) <= match_tolerance;
+        bool depth_match = match_header_value(sac->hd.evdp, Ctrl->Depth.depsrc, match_tolerance)
+            && match_header_value(-sac->hd.stel * 1e-3, Ctrl->Depth.deprcv, match_tolerance);
+        bool dist_match = match_header_value(sac->hd.dist, Ctrl->R.dist, match_tolerance);
         grt_free_SACTRACE(sac);
         GRT_SAFE_FREE_PTR(sample);
 
-- 
2.43.0


From 5e88d429849734188019bfa7261111140bff4c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 07/37] fix: unevenly spaced distances are no longer taken for
 an even grid in static syn

---
 pygrt/C_extension/src/static/grt_static_syn.c | 2 +-
 pygrt/C_extension/src/static/stgrnlib.c       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index aa07e37..97dbc79 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -702,7 +702,7 @@ static void static_syn_from_gf(
 
         size_t sort_ir_pick = 0, sort_ir_pick1 = 0;
         if(isUniform){
-            sort_ir_pick = (size_t)((dist - sort_rs0[0]) / dr);
+            sort_ir_pick = GRT_MIN((size_t)(GRT_MAX(dist - sort_rs0[0], 0.0) / dr), nr0-1);
         } else {
             for(sort_ir_pick = 0; sort_ir_pick < nr0-1; ++sort_ir_pick)   if(sort_rs0[sort_ir_pick+1] > dist)  break;
         }
diff --git a/pygrt/C_extension/src/static/stgrnlib.c b/pygrt/C_extension/src/static/stgrnlib.c
index 043d808..c5c3570 100644
--- a/pygrt/C_extension/src/static/stgrnlib.c
+++ b/pygrt/C_extension/src/static/stgrnlib.c
@@ -49,10 +49,10 @@ static void fill_rs_meta(STGRNLIB *lib)
     // 还未排序前，先判断是否是一个等距升序数组，便于加快后续查找
     lib->isUniform = (lib->nr > 2);
     lib->dr = (lib->nr > 1) ? (lib->rs[1] - lib->rs[0]) : 0.0;
-    for(size_t ir = 1; ir + 1 < lib->nr; ++ir){
-        if(fabs(2.0 * lib->rs[ir] - (lib->rs[ir - 1] + lib->rs[ir + 1])) > 1e-3
-           || lib->rs[ir - 1] >= lib->rs[ir]
-           || lib->rs[ir] >= lib->rs[ir + 1]){
+    for(size_t ir = 1; ir < lib->nr; ++ir){
+        // 误差相对于间距判断且不累积，否则间隔小的不等距数组会被误判为等距，查找时下标错误甚至越界
+        if(lib->rs[ir - 1] >= lib->rs[ir]
+           || fabs(lib->rs[ir] - (lib->rs[0] + ir * lib->dr)) > 1e-6 * lib->dr){
             lib->isUniform = false;
             break;
         }
-- 
2.43.0


From caf543c37f8196e06a3486a15050456f37b55f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:36 +0000
Subject: [PATCH 08/37] fix: a1/a2/d ranges no longer lose their end point to
 rounding

---
 pygrt/C_extension/include/grt/common/const.h      | 2 ++
 pygrt/C_extension/src/common/util.c               | 2 +-
 pygrt/C_extension/src/dynamic/grt_kernel.c        | 6 +++---
 pygrt/C_extension/src/lamb/grt_lamb1.c            | 2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c         | 4 ++--
 pygrt/C_extension/src/modal/grt_eigenv.c          | 2 +-
 pygrt/C_extension/src/okada/grt_okada.c           | 2 +-
 pygrt/C_extension/src/static/grt_static_greenfn.c | 4 ++--
 pygrt/C_extension/src/static/grt_static_syn.c     | 4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c        | 2 +-
 pygrt/C_extension/src/tools/grt_travt.c           | 2 +-
 11 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/const.h b/pygrt/C_extension/include/grt/common/const.h
index f7b462a..cca6bd8 100755
--- a/pygrt/C_extension/include/grt/common/const.h
+++ b/pygrt/C_extension/include/grt/common/const.h
@@ -79,6 +79,8 @@ typedef double complex cplx_t;
 #define GRT_MAX(a, b) ((a) > (b) ? (a) : (b))  ///< 求两者较大值
 #define GRT_MIN(a, b) ((a) < (b) ? (a) : (b))  ///< 求两者较小值
 
+#define GRT_RANGE_NUM(a1, a2, d)  ((size_t)floor(((a2) - (a1)) / (d) + 1e-8) + 1)  ///< 等间隔序列 a1/a2/d 的个数，终点不因舍入误差丢失
+
 #define GRT_SQUARE(x) ((x) * (x))  ///< 计算一个数的平方
 
 // 内存管理
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index b452898..372fa19 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -80,7 +80,7 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
         if(a1 > a2){
             GRTRaiseError("-%c: start (%f) > end (%f).", optname, a1, a2);
         }
-        n = (size_t)floor((a2 - a1) / delta) + 1;
+        n = GRT_RANGE_NUM(a1, a2, delta);
         s_vals = (char **)calloc(n, sizeof(char *));
         for(size_t i = 0; i < n; ++i){
             GRT_SAFE_ASPRINTF(&s_vals[i], "%.15g", a1 + delta * i);
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 0474c1e..5da14d7 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -266,7 +266,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                     // 至少要有两个频率点，才能在程序中用差分计算 df
                     if(Ctrl->F.nf < 2){
                         GRTBadOptionError(F, "Too few frequency points, only %zu.", Ctrl->F.nf);
@@ -315,7 +315,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
 
-                        Ctrl->C.nc = floor((a2-a1)/df) + 1;
+                        Ctrl->C.nc = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->C.nc; ++i){
                             Ctrl->C.c_phases[i] = a1 + df*i;
@@ -395,7 +395,7 @@ int kernel_main(int argc, char **argv)
     {
         Ctrl->C.cmin = 0.8 * vmin;
         Ctrl->C.cmax = vmax;
-        Ctrl->C.nc = floor((Ctrl->C.cmax - Ctrl->C.cmin)/Ctrl->C.dc) + 1;
+        Ctrl->C.nc = GRT_RANGE_NUM(Ctrl->C.cmin, Ctrl->C.cmax, Ctrl->C.dc);
         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
         for(size_t i=0; i<Ctrl->C.nc; ++i){
             Ctrl->C.c_phases[i] = Ctrl->C.cmin + Ctrl->C.dc*i;
diff --git a/pygrt/C_extension/src/lamb/grt_lamb1.c b/pygrt/C_extension/src/lamb/grt_lamb1.c
index c013de2..927d89d 100644
--- a/pygrt/C_extension/src/lamb/grt_lamb1.c
+++ b/pygrt/C_extension/src/lamb/grt_lamb1.c
@@ -111,7 +111,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(T, "t1(%f) > t2(%f).", a1, a2);
                     }
 
-                    Ctrl->T.nt = floor((a2-a1)/delta) + 1;
+                    Ctrl->T.nt = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->T.ts = (real_t*)calloc(Ctrl->T.nt, sizeof(real_t));
                     for(int i=0; i<Ctrl->T.nt; ++i){
                         Ctrl->T.ts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 1ec2b62..bbec7c3 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -259,7 +259,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
@@ -374,7 +374,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                     }
                                 }
 
-                                Ctrl->W.nz = floor((a2-a1)/dif) + 1;
+                                Ctrl->W.nz = GRT_RANGE_NUM(a1, a2, dif);
                                 Ctrl->W.zs = (real_t*)calloc(Ctrl->W.nz, sizeof(real_t));
                                 for(size_t i=0; i<Ctrl->W.nz; ++i){
                                     Ctrl->W.zs[i] = a1 + dif*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index ae5b2b5..5ff9443 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -289,7 +289,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                     Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                     for(size_t i = 0; i < Ctrl->F.nf; ++i){
                         if(isperiod){
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index ddc4711..43b8d4b 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -210,7 +210,7 @@ static void parse_axis(const char *text, char option, size_t *n, real_t **values
     if(sscanf(text, "%lf/%lf/%lf", &a1, &a2, &delta) != 3 || delta <= 0.0 || a1 > a2){
         GRTRaiseError("Error in \"-%c\". expected x1/x2/dx with x1 <= x2 and dx > 0. Use \"-h\" for help.\n", option);
     }
-    *n = (size_t)floor((a2 - a1) / delta) + 1;
+    *n = GRT_RANGE_NUM(a1, a2, delta);
     *values = (real_t *)calloc(*n, sizeof(real_t));
     if(*values == NULL) GRTRaiseError("failed to allocate receiver axis.");
     for(size_t i = 0; i < *n; ++i) (*values)[i] = a1 + i * delta;
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 5ce7c6d..0ed4705 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -467,7 +467,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -490,7 +490,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index 97dbc79..6666dab 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -494,7 +494,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -517,7 +517,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 253e2f0..2e65bcf 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -212,7 +212,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index e24b3dc..4e4420d 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -171,7 +171,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             place++;
                         } while (place < 8);  // 最多小数点后 8 位
 
-                        Ctrl->R.nr = floor((a2-a1)/delta) + 1;
+                        Ctrl->R.nr = GRT_RANGE_NUM(a1, a2, delta);
                         Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*) * Ctrl->R.nr);
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
-- 
2.43.0


From bf6a3e07437d11fff74d35a61f315241006dde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:51 +0000
Subject: [PATCH 09/37] fix: finite faults whose size is a multiple of the
 subfault size are no longer refused because of rounding

---
 pygrt/C_extension/src/common/finite_fault.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index cf66b3d..91669b2 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -188,8 +188,9 @@ void grt_finite_fault_subdiv(
     if(*W <= 0.0 || *L <= 0.0){
         GRTRaiseError("fault along-dip/along-strike length must be positive (W=%.6g, L=%.6g).", *W, *L);
     }
-    *nW = GRT_MAX(1, (size_t)ceil(*W / dW));
-    *nL = GRT_MAX(1, (size_t)ceil(*L / dL));
+    // 扣除舍入误差，否则整除时会多出宽度为零的末块
+    *nW = GRT_MAX(1, (size_t)ceil(*W / dW - 1e-8));
+    *nL = GRT_MAX(1, (size_t)ceil(*L / dL - 1e-8));
 }
 
 
-- 
2.43.0


From 900e31380cc6b31193286516134be6a259b862b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:34 +0000
Subject: [PATCH 10/37] fix: lamb1 no longer gives NaN when a time falls on an
 arrival within rounding, nor reads past a single time

---
 pygrt/C_extension/src/lamb/lamb1.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/lamb/lamb1.c b/pygrt/C_extension/src/lamb/lamb1.c
index ac196e7..a02857b 100644
--- a/pygrt/C_extension/src/lamb/lamb1.c
+++ b/pygrt/C_extension/src/lamb/lamb1.c
@@ -786,7 +786,9 @@ void grt_solve_lamb1(
 
     real_t phi = azimuth * DEG1;
     
-    real_t tbar_eps = GRT_MIN(1e-8, (ts[1]-ts[0]) * 1e-5);
+    // 震相到时附近的偏移量，时间序列可能只有一个点
+    real_t tbar_eps = 1e-8;
+    if(nt > 1 && ts[1] != ts[0])   tbar_eps = GRT_MIN(tbar_eps, fabs(ts[1]-ts[0]) * 1e-5);
 
     // 初始化相关变量
     VARS V0 = {0};
@@ -842,7 +844,10 @@ void grt_solve_lamb1(
         real_t tbar = ts[i];
 
         // 跳过一些震相到时处的奇点
-        if(tbar == 1.0 || tbar == V0.k || tbar == V0.kpa)   tbar += tbar_eps;
+        // 到时可能因舍入误差而与理论值略有差别，故使用容差判断
+        if(fabs(tbar - 1.0) < tbar_eps)         tbar = 1.0 + tbar_eps;
+        else if(fabs(tbar - V0.k) < tbar_eps)   tbar = V0.k + tbar_eps;
+        else if(fabs(tbar - V0.kpa) < tbar_eps) tbar = V0.kpa + tbar_eps;
 
         build_P(tbar,  V, up);
         build_S1(tbar, V, us1);
-- 
2.43.0


From 8318e1b095284d8a2c4efc5bdf2886b5d35bd157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:34 +0000
Subject: [PATCH 11/37] fix: okada tensile point sources use the same scale as
 static syn (potency, or moment over mu)

---
 pygrt/C_extension/src/okada/grt_okada.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index 43b8d4b..a0f4e4a 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -412,7 +412,8 @@ static void add_point_source(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PAR
         pot1 = scalar * cos(ctrl->M.rake * DEG1);
         pot2 = scalar * sin(ctrl->M.rake * DEG1);
     } else {
-        pot3 = ctrl->S.mult_src_mu ? ctrl->S.value * medium->mu / medium->lambda : ctrl->S.value / medium->lambda;
+        // Okada 张裂源的 potency 即为面积 x 张开距离，与 static_syn 模块保持一致
+        pot3 = scalar;
     }
 
     // Okada 点源输出的位移和偏导分别需要乘以 1e-10 和 1e-15
-- 
2.43.0


From dc4a8a7fa98fdfd67d0c2e0ffa7f7a0671b2fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 12/37] fix: okada rectangles lose no digits near the
 prolongation of their edges

---
 pygrt/C_extension/src/okada/okada.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/okada/okada.c b/pygrt/C_extension/src/okada/okada.c
index b714568..d7e8cbd 100644
--- a/pygrt/C_extension/src/okada/okada.c
+++ b/pygrt/C_extension/src/okada/okada.c
@@ -671,7 +671,8 @@ static void DCCON2(const OKADA_MEDIUM *c, OKADA_FINITE *f,
         f->x11 = 0.0;
         f->x32 = 0.0;
     } else {
-        real_t rxi = f->r + xi;
+        // xi 为负时直接相加会严重丢失有效数字，改用等价形式
+        real_t rxi = (xi < 0.0) ? (f->et2 + f->q2) / (f->r - xi) : f->r + xi;
         f->alx = log(rxi);
         f->x11 = 1.0 / (f->r * rxi);
         f->x32 = (f->r + rxi) * f->x11 * f->x11 / f->r;
@@ -682,7 +683,7 @@ static void DCCON2(const OKADA_MEDIUM *c, OKADA_FINITE *f,
         f->y11 = 0.0;
         f->y32 = 0.0;
     } else {
-        real_t ret = f->r + et;
+        real_t ret = (et < 0.0) ? (f->xi2 + f->q2) / (f->r - et) : f->r + et;
         f->ale = log(ret);
         f->y11 = 1.0 / (f->r * ret);
         f->y32 = (f->r + ret) * f->y11 * f->y11 / f->r;
-- 
2.43.0


From d032bb522834d752dc2c45474f28541b88a9adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:16 +0000
Subject: [PATCH 13/37] fix: keep the scaling of the liquid-solid secular
 function continuous

The function was divided by 4c^2 only above c = 1, so it jumped by a factor
of 4 there, and where it is small the jump passed for a zero: eigenv reported
a mode with c = 1 that does not exist.
---
 pygrt/C_extension/src/modal/secular.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/secular.c b/pygrt/C_extension/src/modal/secular.c
index e941bca..a6be9fa 100644
--- a/pygrt/C_extension/src/modal/secular.c
+++ b/pygrt/C_extension/src/modal/secular.c
@@ -457,9 +457,9 @@ void grt_secular_function_potential_Rayl(
                - R3[0][1] * (R3[1][0] * R3[2][2] - R3[1][2] * R3[2][0])
                + R3[0][2] * (R3[1][0] * R3[2][1] - R3[1][1] * R3[2][0]);
 
-        // 适当调整幅值
+        // 适当调整幅值，缩放系数需连续，否则会在跳变处形成虚假的波谷
         if(cphase < cref && cphase > 1.0){
-            *psec /= 4.0*cphase*cphase;
+            *psec /= cphase*cphase;
         }
 
         // 返回对应的垂直波函数
-- 
2.43.0


From 41c62840041c6daea47345a3c7aaf13acea17b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:16 +0000
Subject: [PATCH 14/37] fix: Rayleigh velocity estimate of a half-space
 converges for every vp/vs

Newton's method started beside the local minimum of the cubic and for vp/vs
around 2.4 went to a root above vs; the fundamental Rayleigh mode was missed.
---
 pygrt/C_extension/src/modal/root.c | 37 +++++++++---------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 1b31c72..d0f5d2f 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -559,33 +559,18 @@ static real_t grt_halfspace_Rayleigh_croot(const MODEL1D_STATE *mstat, const siz
     real_t vp = mstat->mod1d->Va[iref];
     real_t vs = mstat->mod1d->Vb[iref];
     real_t xi2 = GRT_SQUARE(vs/vp);
-    real_t eta = 0.0;
-
-    // 初始猜想值 eta，从微偏离三次函数的局部极小值开始
-    {
-        real_t a = 3.0;
-        real_t b = -16.0;
-        real_t c = 8.0*(3.0 - 2.0*xi2);
-        eta = b*b - 4.0*a*c;
-        eta = (eta >= 0.0)? sqrt((- b - sqrt(eta))/(2.0*a)) * 0.9 : 0.9;
-    }
-
-    // 简单用一个牛顿迭代法求解
-    for(size_t i = 0; i < 10; ++i){
-        real_t eta2 = eta*eta;
-        real_t eta4 = eta2*eta2;
-        real_t eta6 = eta4*eta2;
-        real_t f_val = eta6 - 8.0*eta4 + 8.0*(3.0 - 2.0*xi2)*eta2 - 16.0*(1.0 - xi2);
-        real_t df_val = eta*(6.0*eta4 - 32.0*eta2 + 16.0*(3.0 - 2.0*xi2));
-
-        if(fabs(df_val) < 1e-10)  break;
-
-        real_t new_eta = eta - f_val / df_val;
-
-        if(fabs(new_eta - eta) < 1e-8)  break;
-
-        eta = new_eta;
+    // 关于 y = eta^2 的三次函数在 (0,1) 内单调递增且上凸，函数值由负变正，有且仅有一个根，
+    // 从 y=0 出发的牛顿迭代会单调收敛到该根
+    real_t y = 0.0;
+    for(size_t i = 0; i < 50; ++i){
+        real_t f_val = ((y - 8.0)*y + 8.0*(3.0 - 2.0*xi2))*y - 16.0*(1.0 - xi2);
+        real_t df_val = (3.0*y - 16.0)*y + 8.0*(3.0 - 2.0*xi2);
+        real_t dy = f_val / df_val;
+
+        y -= dy;
+        if(fabs(dy) < 1e-12)  break;
     }
+    real_t eta = sqrt(y);
 
     return eta * vs;
 }
-- 
2.43.0


From 0d9d4931d08627d4c8cc54665d8904184851d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:16 +0000
Subject: [PATCH 15/37] fix: search Rayleigh modes from low enough, and not
 above the half-space velocity

The search started at the smallest S velocity or 0.95 times the estimate for
the first solid layer, and missed the fundamental mode of models whose slow or
light layer lies deeper. Estimates above the half-space S velocity extended
the search to leaky velocities and let spurious modes in.
---
 pygrt/C_extension/src/modal/root.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index d0f5d2f..78b4ae9 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -676,11 +676,12 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                 if(! mstat->mod1d->isLiquid[iy]) break;
             }
             if(iy < mstat->mod1d->n){
-                real_t target = grt_halfspace_Rayleigh_croot(mstat, iy);
+                // 略微偏离估计根，避免自由表面反射系数恰好奇异而将其误判为零点
+                real_t target = grt_halfspace_Rayleigh_croot(mstat, iy) * (1.0 - 1e-6);
                 cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
-                grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                 target *= 0.95;
-                grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
             }
         }
         // 在 cpred 中补充 Scholte 波的估计根
@@ -699,12 +700,18 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                     }
                     real_t target = grt_halfspace_Scholte_croot(mstat, iref_liquid, iref_solid);
                     cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
-                    grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                    if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                     target *= 0.95;
-                    grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                    if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                 }
             }
         }
+        // 低速层不一定是首层，密度差异也会使基阶波的相速度低于以上估计，故向下扩展搜索的起点
+        if(eigmet->wtype == GRT_DISPERSION_RAYL){
+            real_t target = 0.5*cpred[0];
+            cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+1));
+            grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+        }
     }
 
     // 如果手动指定了 iref， 则直接调用
-- 
2.43.0


From 2a473a46634ba596658d2060b90d6cb8ad41e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 16/37] fix: eigenfunctions across liquid-solid interfaces
 (null vector from the best conditioned rows)

---
 pygrt/C_extension/src/modal/secular.c | 33 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pygrt/C_extension/src/modal/secular.c b/pygrt/C_extension/src/modal/secular.c
index a6be9fa..fbea7f3 100644
--- a/pygrt/C_extension/src/modal/secular.c
+++ b/pygrt/C_extension/src/modal/secular.c
@@ -464,12 +464,33 @@ void grt_secular_function_potential_Rayl(
 
         // 返回对应的垂直波函数
         if(ppot != NULL && ppotUp != NULL){
-            // 做叉积得到基础解
-            cplx_t tmp[3];
-            tmp[0] = R3[1][1] * R3[2][2] - R3[1][2] * R3[2][1];
-            tmp[1] = R3[1][2] * R3[2][0] - R3[1][0] * R3[2][2];
-            tmp[2] = R3[1][0] * R3[2][1] - R3[1][1] * R3[2][0];
-            real_t amp = sqrt(tmp[0]*tmp[0] + tmp[1]*tmp[1] + tmp[2]*tmp[2]);
+            // 做叉积得到基础解。任意两行均可，但振型与界面一侧耦合很弱时，
+            // 某一行会近似为 0 而误差显著，故取模最大的叉积
+            real_t rowscale[3] = {1.0, 1.0, 1.0};
+            if(cphase < cref){
+                // 各行为不同物理量的连续条件，先统一量级
+                for(int i = 0; i < 3; ++i){
+                    rowscale[i] = 0.0;
+                    for(int j = 0; j < 3; ++j)  rowscale[i] += fabs(Qin[i][j]) + fabs(Qout[i][j]);
+                }
+            }
+            cplx_t tmp[3] = {0};
+            real_t amp = 0.0;
+            for(int i = 0; i < 3; ++i){
+                const int i2 = (i+1) % 3;
+                const real_t scale = rowscale[i] * rowscale[i2];
+                cplx_t cross[3];
+                real_t cross_amp = 0.0;
+                for(int j = 0; j < 3; ++j){
+                    const int j1 = (j+1) % 3, j2 = (j+2) % 3;
+                    cross[j] = (R3[i][j1]*R3[i2][j2] - R3[i][j2]*R3[i2][j1]) / scale;
+                    cross_amp = hypot(cross_amp, fabs(cross[j]));
+                }
+                if(cross_amp > amp){
+                    amp = cross_amp;
+                    memcpy(tmp, cross, sizeof(tmp));
+                }
+            }
             tmp[0] /= amp;
             tmp[1] /= amp;
             tmp[2] /= amp;
-- 
2.43.0


From dcb0b2e55542f5a6382783e16bf2cfb371567c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 17/37] fix: group sensitivity read beyond the modes of the
 next frequency

---
 pygrt/C_extension/src/modal/modal_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 30edb05..af8f669 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -143,9 +143,9 @@ void grt_group_sensitivity(EIGENFN_INFO *eigfnmet)
             for(size_t iz = 0; iz < eigfnmet->cpar_nz; ++iz){
                 // 层内的物理量
                 for(int ia = 0; ia < GRT_SNSTVTY_MAX; ++ia){
-                    // 计算相速度敏感核在频率上的差分
+                    // 计算相速度敏感核在频率上的差分，下一个频率可能不存在该阶
                     real_t ddCdwdX = 0.0;
-                    if(iw < eigfnmet->nf-1){
+                    if(iw < eigfnmet->nf-1 && ic < eigfnmet->eigv[iw+1].n){
                         EIGENFN *eigfn_w1 = &eigfnmet->eigfn[iw+1][ic];
 
                         ddCdwdX = eigfn_w1->csens[iz][ia] - eigfn->csens[iz][ia];
-- 
2.43.0


From 2896e5c6a2b41aee264fcc5ee83bc4ff147f32c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 18/37] fix: eigenfn -F<f1>/<f2>+p selected the range as
 frequencies instead of periods

---
 pygrt/C_extension/src/modal/grt_eigenfn.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index bbec7c3..d9f793c 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -273,8 +273,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         // 只约束最大值和最小值，内存申请由读取频散文件的过程中进行
                         Ctrl->F.nf = 2;
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
-                        Ctrl->F.freqs[0] = a1;
-                        Ctrl->F.freqs[1] = a2;
+                        // 周期范围对应的频率范围，零周期则无上限
+                        Ctrl->F.freqs[0] = isperiod? 1.0/a2 : a1;
+                        Ctrl->F.freqs[1] = isperiod? 1.0/a1 : a2;
                         Ctrl->F.def_range = true;
                     }
                     
-- 
2.43.0


From 9f89f7e813dbfc63b356fbcaa1aa026b8b9e05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 19/37] fix: modsum -e writes the vertical derivative of
 Rayleigh waves at receivers in liquids

---
 pygrt/C_extension/src/modal/modgrn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modgrn.c b/pygrt/C_extension/src/modal/modgrn.c
index d5c44f2..7c62d2c 100644
--- a/pygrt/C_extension/src/modal/modgrn.c
+++ b/pygrt/C_extension/src/modal/modgrn.c
@@ -78,9 +78,11 @@ void grt_modsum_grn_Rayl(
             {aa, bk, aa, -bk}
         };
 
-        if(! isLiquid){
-            grt_get_eigenfn_single_depth_Rayl(mstat, mod_potRaylLove_Down, mod_potRaylLove_Up, T0_z, true, mstat->mod1d->deprcv, ircv, rcv_eigenfn_z);
+        // 液体层中无 S 波
+        if(isLiquid){
+            T0_z[0][1] = T0_z[1][1] = T0_z[0][3] = T0_z[1][3] = 0.0;
         }
+        grt_get_eigenfn_single_depth_Rayl(mstat, mod_potRaylLove_Down, mod_potRaylLove_Up, T0_z, true, mstat->mod1d->deprcv, ircv, rcv_eigenfn_z);
     }
 
     // 计算该频点、该本征值下的频谱
-- 
2.43.0


From b0a577c9cc5a60357de8a8885dc8e1a83c05b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 20/37] fix: modsum -Ep refers to the first P arrival

---
 pygrt/C_extension/src/modal/grt_modsum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 755a52e..17496ec 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -574,7 +574,7 @@ static void compute_modsum_one(
                 delayT = Ctrl->E.delayT0;
                 if(Ctrl->E.delayV0 > 0.0)   delayT += hypot( dist, Ctrl->D.deprcv - Ctrl->D.depsrc ) / Ctrl->E.delayV0;
             } else {
-                delayT = Ctrl->E.delayT0 + sac->hd.t0;
+                delayT = Ctrl->E.delayT0 + travtPS[ir][0];
             }
             begintimes[ir] = delayT;
         }
-- 
2.43.0


From c3508457229c460e28144f2f34d1e4d784e591fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 21/37] fix: modsum computes travel times with the source and
 receiver at their depths

---
 pygrt/C_extension/src/modal/grt_modsum.c | 35 ++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 17496ec..bc5748e 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -452,6 +452,37 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 }
 
 
+/** 在模型中插入震源和台站的虚拟层后，计算理论初至走时 */
+static real_t compute_travt(const MODEL1D *mod1d, const real_t *vel, real_t depsrc, real_t deprcv, real_t dist)
+{
+    real_t *thk = (real_t *)calloc(mod1d->n + 2, sizeof(real_t));
+    real_t *v = (real_t *)calloc(mod1d->n + 2, sizeof(real_t));
+    real_t deps[2] = {GRT_MIN(depsrc, deprcv), GRT_MAX(depsrc, deprcv)};
+    size_t idxs[2] = {0};
+    size_t n = 0;
+    int k = 0;
+    for(size_t i = 0; i < mod1d->n; ++i){
+        real_t top = mod1d->Dep[i];
+        real_t bot = (i+1 < mod1d->n)? mod1d->Dep[i+1] : GRT_MAX(top, deps[1]) + 1e30;
+        for(; k < 2 && bot >= deps[k]; ++k){
+            thk[n] = deps[k] - top;
+            v[n] = vel[i];
+            idxs[k] = ++n;
+            top = deps[k];
+        }
+        thk[n] = bot - top;
+        v[n] = vel[i];
+        ++n;
+    }
+    size_t isrc = (depsrc >= deprcv)? idxs[1] : idxs[0];
+    size_t ircv = (depsrc >= deprcv)? idxs[0] : idxs[1];
+    real_t travt = grt_compute_travt1d(thk, v, n, isrc, ircv, dist);
+    GRT_SAFE_FREE_PTR(thk);
+    GRT_SAFE_FREE_PTR(v);
+    return travt;
+}
+
+
 /** 计算一个震源深度和台站深度组合的面波格林函数 */
 static void compute_modsum_one(
     GRT_MODULE_CTRL *Ctrl, MODEL1D *mod1d, EIGENV_INFO *eigmet, const char *modelpath)
@@ -564,8 +595,8 @@ static void compute_modsum_one(
             Ctrl->O.s_output_dir, grt_get_basename(modelpath), Ctrl->D.s_depsrc, Ctrl->D.s_deprcv, Ctrl->R.s_rs[ir]);
 
         // 计算理论走时
-        travtPS[ir][0] = grt_compute_travt1d(mod1d->Thk, mod1d->Va, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
-        travtPS[ir][1] = grt_compute_travt1d(mod1d->Thk, mod1d->Vb, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
+        travtPS[ir][0] = compute_travt(mod1d, mod1d->Va, Ctrl->D.depsrc, Ctrl->D.deprcv, dist);
+        travtPS[ir][1] = compute_travt(mod1d, mod1d->Vb, Ctrl->D.depsrc, Ctrl->D.deprcv, dist);
 
         // 时间延迟
         {
-- 
2.43.0


From c0ea8943f5bbc2928df815539e62cd764c25a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 22/37] fix: rounding of summed thicknesses no longer decides
 the layer of a depth on an interface

---
 pygrt/C_extension/include/grt/common/const.h | 1 +
 pygrt/C_extension/src/common/model.c         | 5 +++--
 pygrt/C_extension/src/modal/grt_modsum.c     | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/const.h b/pygrt/C_extension/include/grt/common/const.h
index cca6bd8..46b0758 100755
--- a/pygrt/C_extension/include/grt/common/const.h
+++ b/pygrt/C_extension/include/grt/common/const.h
@@ -79,6 +79,7 @@ typedef double complex cplx_t;
 #define GRT_MAX(a, b) ((a) > (b) ? (a) : (b))  ///< 求两者较大值
 #define GRT_MIN(a, b) ((a) < (b) ? (a) : (b))  ///< 求两者较小值
 
+#define GRT_DEPTH_TOL  1e-9  ///< 深度 (km) 与层界面重合的判断容差，避免厚度累加的舍入误差改变点所在的层
 #define GRT_RANGE_NUM(a1, a2, d)  ((size_t)floor(((a2) - (a1)) / (d) + 1e-8) + 1)  ///< 等间隔序列 a1/a2/d 的个数，终点不因舍入误差丢失
 
 #define GRT_SQUARE(x) ((x) * (x))  ///< 计算一个数的平方
diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index 577838f..a56bb56 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -187,7 +187,7 @@ void grt_modarr_medium_at_depth(
     size_t i = 0;
     for(; i + 1 < nlayer; ++i){
         real_t bot = top + modarr[i][0];
-        if(depth <= bot) break;  // 恰在界面取上层
+        if(depth <= bot + GRT_DEPTH_TOL) break;  // 恰在界面取上层
         top = bot;
     }
     if(va  != NULL) *va  = modarr[i][1];
@@ -250,7 +250,7 @@ MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t
         for(int k=0; k<2; ++k){
             // 这里的判断设计使得 min(isrc, ircv) >= 1，即不可能为 0 层
             // 这里不能改，否则会影响后续计算 R/T 矩阵的循环
-            if(*pimg_idx == 0 && depth+h >= depimg && depsrc >= 0.0 && deprcv >= 0.0){
+            if(*pimg_idx == 0 && depth+h >= depimg - GRT_DEPTH_TOL && depsrc >= 0.0 && deprcv >= 0.0){
                 grt_realloc_mod1d(mod1d, nlay+1);
                 mod1d->Thk[nlay] = depimg - depth;
                 mod1d->Va[nlay] = va;
@@ -261,6 +261,7 @@ MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t
                 mod1d->Qainv[nlay] = (qa > 0.0)? 1.0/qa : 0.0;
                 mod1d->Qbinv[nlay] = (qb > 0.0)? 1.0/qb : 0.0;
                 h = h - (depimg - depth);
+                if(fabs(h) < GRT_DEPTH_TOL)  h = 0.0;  // 恰在界面
 
                 depth += depimg - depth;
                 nlay++;
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index bc5748e..c448d2e 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -492,10 +492,10 @@ static void compute_modsum_one(
     mod1d->deprcv = Ctrl->D.deprcv;
     mod1d->ircvup = (Ctrl->D.depsrc >= Ctrl->D.deprcv);
     for(mod1d->isrc=0; mod1d->isrc < mod1d->n-1; ++mod1d->isrc){
-        if(mod1d->Dep[mod1d->isrc+1] >= Ctrl->D.depsrc)  break; 
+        if(mod1d->Dep[mod1d->isrc+1] >= Ctrl->D.depsrc - GRT_DEPTH_TOL)  break; 
     }
     for(mod1d->ircv=0; mod1d->ircv < mod1d->n-1; ++mod1d->ircv){
-        if(mod1d->Dep[mod1d->ircv+1] >= Ctrl->D.deprcv)  break; 
+        if(mod1d->Dep[mod1d->ircv+1] >= Ctrl->D.deprcv - GRT_DEPTH_TOL)  break; 
     }
 
     // 当震源位于液体层中时，仅允许计算爆炸源对应的格林函数
-- 
2.43.0


From 542787615d743d223e2be149be5be3e62864be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 23/37] fix: negative layer thickness in a model file is
 refused

---
 pygrt/C_extension/src/common/model.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index a56bb56..c65c49e 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -130,6 +130,9 @@ real_t (* grt_read_modarr_from_file(
             io_depth = true;
         }
 
+        if(h < 0.0){
+            GRTRaiseError("In model file, line %zu, negative thickness or depth is not supported.\n", iline);
+        }
         if(va <= 0.0 || rho <= 0.0 || (ncols == nscan && (qa <= 0.0 || qb <= 0.0))){
             GRTRaiseError("In model file, line %zu, nonpositive value is not supported.\n", iline);
         }
-- 
2.43.0


From edacbac0885da35d56e30b675ceb79430f876eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 24/37] fix: greenfn -N refuses a negative number of points

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 82257c0..1b71aaf 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -483,23 +483,29 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
+                    ssize_t nt = 0;
+                    if(2 != sscanf(token, "%zd/%lf", &nt, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
                     };
-                    if(Ctrl->N.nt <= 0 || Ctrl->N.dt <= 0.0){
+                    if(nt <= 0 || Ctrl->N.dt <= 0.0){
                         GRTBadOptionError(N, "Nonpositive value in -N is not supported.");
                     }
+                    Ctrl->N.nt = nt;
 
                     // 处理 + 号指令
                     token = strtok(NULL, "+");
                     while(token != NULL){
                         switch (token[0]){
                             case 'n':
-                                if(1 != sscanf(token+1, "%zu", &Ctrl->N.upsample_n)){
-                                    GRTBadOptionError(N, "");
-                                }
-                                if(Ctrl->N.upsample_n <= 0){
-                                    GRTBadOptionError(N, "+%s need positive integer, but get (%zu).", token, Ctrl->N.upsample_n);
+                                {
+                                    ssize_t upsample_n = 0;
+                                    if(1 != sscanf(token+1, "%zd", &upsample_n)){
+                                        GRTBadOptionError(N, "");
+                                    }
+                                    if(upsample_n <= 0){
+                                        GRTBadOptionError(N, "+%s need positive integer, but get (%zd).", token, upsample_n);
+                                    }
+                                    Ctrl->N.upsample_n = upsample_n;
                                 }
                                 break;
 
-- 
2.43.0


From db7bacd2a3ca0e56d0ea58fc3288e2d077582bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 25/37] fix: differentiation of a one-sample trace is refused
 instead of reading past its end

---
 pygrt/C_extension/src/dynamic/signals.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index a139e58..a5f2ed9 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -182,6 +182,9 @@ void grt_trap_integral(float *x, int nx, float dt){
 
 
 void grt_differential(float *x, int nx, float dt){
+    if(nx < 2){
+        GRTRaiseError("at least 2 points are needed for differential.\n");
+    }
     // 中心差分
     float tmp, x0=x[0];
     float h=2.0*dt;
-- 
2.43.0


From 7fa2793793db8469bb4839e7eb8d3b46c513cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 26/37] fix: static strain, rotation and stress without an
 input file end with an error

---
 pygrt/C_extension/src/static/grt_static_rotation.c | 3 ++-
 pygrt/C_extension/src/static/grt_static_strain.c   | 3 ++-
 pygrt/C_extension/src/static/grt_static_stress.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/static/grt_static_rotation.c b/pygrt/C_extension/src/static/grt_static_rotation.c
index 5786439..c34e20a 100644
--- a/pygrt/C_extension/src/static/grt_static_rotation.c
+++ b/pygrt/C_extension/src/static/grt_static_rotation.c
@@ -55,7 +55,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         }
     }
 
-    // 暂不支持设置其它参数
+    // 检查必选项有没有设置
+    GRTCheckOptionSet(argc > 1);
 }
 
 /** 由静态位移偏导合成旋转张量 */
diff --git a/pygrt/C_extension/src/static/grt_static_strain.c b/pygrt/C_extension/src/static/grt_static_strain.c
index af4b080..62d1f7d 100644
--- a/pygrt/C_extension/src/static/grt_static_strain.c
+++ b/pygrt/C_extension/src/static/grt_static_strain.c
@@ -52,7 +52,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         }
     }
 
-    // 暂不支持设置其它参数
+    // 检查必选项有没有设置
+    GRTCheckOptionSet(argc > 1);
 }
 
 /** 由静态位移偏导合成应变张量 */
diff --git a/pygrt/C_extension/src/static/grt_static_stress.c b/pygrt/C_extension/src/static/grt_static_stress.c
index aacea2d..c4b72bf 100644
--- a/pygrt/C_extension/src/static/grt_static_stress.c
+++ b/pygrt/C_extension/src/static/grt_static_stress.c
@@ -55,7 +55,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         }
     }
 
-    // 暂不支持设置其它参数
+    // 检查必选项有没有设置
+    GRTCheckOptionSet(argc > 1);
 }
 
 /** 由静态位移偏导合成应力张量 */
-- 
2.43.0


From e052d961bd27c28916de547c5ef0c497353b2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 27/37] fix: kernel -C refuses a nonpositive phase velocity
 step

---
 pygrt/C_extension/src/dynamic/grt_kernel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 5da14d7..de1473b 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -314,6 +314,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         if(Ctrl->C.cmin >= Ctrl->C.cmax){
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
+                        if(Ctrl->C.dc <= 0.0){
+                            GRTBadOptionError(C, "Can't set nonpositive dc(%lf).", Ctrl->C.dc);
+                        }
 
                         Ctrl->C.nc = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
-- 
2.43.0


From 9777a57c84aba4b6d43dddbec9ecb8570308a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 28/37] fix: frequency sequences f1/f2/df begin at f1 also when
 f1 is below df

---
 pygrt/C_extension/src/dynamic/grt_kernel.c | 2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c  | 2 +-
 pygrt/C_extension/src/modal/grt_eigenv.c   | 2 +-
 pygrt/C_extension/src/tools/grt_disp2asc.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index de1473b..294e490 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -245,7 +245,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                     }
 
                     // 跳过零频
-                    a1 = GRT_MAX(a1, df);
+                    if(a1 == 0.0)  a1 = df;
                     a2 = GRT_MAX(a1, a2);
                     
                     // 处理 + 号指令
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index d9f793c..4ec3cff 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -239,7 +239,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                         // 跳过零频
                         if(nscan == 3){
-                            a1 = GRT_MAX(a1, df);
+                            if(a1 == 0.0)  a1 = df;
                             a2 = GRT_MAX(a1, a2);
                         }
                     }
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index 5ff9443..abe7591 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -271,7 +271,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         }
 
                         // 跳过零频
-                        a1 = GRT_MAX(a1, df);
+                        if(a1 == 0.0)  a1 = df;
                         a2 = GRT_MAX(a1, a2);
                     }
                     
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 2e65bcf..d9d1041 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -192,7 +192,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                         // 跳过零频
                         if(nscan == 3){
-                            a1 = GRT_MAX(a1, df);
+                            if(a1 == 0.0)  a1 = df;
                             a2 = GRT_MAX(a1, a2);
                         }
                     }
-- 
2.43.0


From 2112ddf8741c61e31c6bba2095e0461d4874da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 29/37] fix: sine end terms of the fixed-interval Filon
 integral have the right sign

---
 pygrt/C_extension/src/integral/k_integ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/integral/k_integ.c b/pygrt/C_extension/src/integral/k_integ.c
index 5e840b0..efd7609 100644
--- a/pygrt/C_extension/src/integral/k_integ.c
+++ b/pygrt/C_extension/src/integral/k_integ.c
@@ -153,7 +153,7 @@ void grt_int_Pk(real_t k, real_t r, const cplxChnlGrid QWV, bool calc_uir, cplxI
 void grt_int_Pk_filon(real_t k, real_t r, bool iscos, const cplxChnlGrid QWV, bool calc_uir, cplxIntegGrid SUM)
 {
     real_t phi0 = 0.0;
-    if(! iscos)  phi0 = - HALFPI;  // 在cos函数中添加的相位差，用于计算sin函数
+    if(! iscos)  phi0 = HALFPI;  // 在cos函数中添加的相位差，用于计算sin函数
 
     real_t kr = k*r;
     real_t kcoef = sqrt(k);
-- 
2.43.0


From 043f380b6e103dde196ec76cfb8ddcf8341de5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 30/37] fix: DCM adds back the near field that the summed part
 of a split integral subtracted

---
 pygrt/C_extension/src/integral/integ_process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index b479d79..6bb84a7 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -130,7 +130,8 @@ K_INTEG * grt_wavenumber_integral(
         if(mstat->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
     }
     else if(Kproc->cvgmet == K_INTEG_CONVERG_DCM){
-        grt_dcm_correction(nr, rs, Kproc->dk, Kproc->kmax, Kint, !isFilon);
+        // 只要有 DWM 段，其近场项就已扣除常数核函数，须由解析解补回
+        grt_dcm_correction(nr, rs, Kproc->dk, Kproc->kmax, Kint, kcut > 0.0);
     }
 
 
-- 
2.43.0


From c45694b9bb569c7fd672f659592d33f3b4c8c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 31/37] fix: adaptive Filon integral with DCM does not refine
 rounding noise

---
 pygrt/C_extension/src/integral/safim.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/integral/safim.c b/pygrt/C_extension/src/integral/safim.c
index b817540..dce4b62 100644
--- a/pygrt/C_extension/src/integral/safim.c
+++ b/pygrt/C_extension/src/integral/safim.c
@@ -399,11 +399,11 @@ real_t grt_sa_filon_integ(
 
         // 增加新值，并比较QWV最大绝对值
         for(int i=0; i<3; ++i){
-            get_maxabsQWV(Kitv_left.F3[i], maxabsQWV);
-            if(K->calc_upar)  get_maxabsQWV(Kitv_left.Fz3[i], maxabsQWV_uiz);
+            get_maxabsQWV(Kitv_left.F3_raw[i], maxabsQWV);
+            if(K->calc_upar)  get_maxabsQWV(Kitv_left.Fz3_raw[i], maxabsQWV_uiz);
             if(i>0){
-                get_maxabsQWV(Kitv_right.F3[i], maxabsQWV);
-                if(K->calc_upar)  get_maxabsQWV(Kitv_right.Fz3[i], maxabsQWV_uiz);
+                get_maxabsQWV(Kitv_right.F3_raw[i], maxabsQWV);
+                if(K->calc_upar)  get_maxabsQWV(Kitv_right.Fz3_raw[i], maxabsQWV_uiz);
             }  
         }
 
-- 
2.43.0


From e5e26bea5ae130902d8aaefd34b3cac53afe239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 32/37] fix: PTAM took the parabola's constant term instead of
 the middle sample when no vertex lies in range

---
 pygrt/C_extension/src/integral/ptam.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/integral/ptam.c b/pygrt/C_extension/src/integral/ptam.c
index 59dca8b..7306441 100755
--- a/pygrt/C_extension/src/integral/ptam.c
+++ b/pygrt/C_extension/src/integral/ptam.c
@@ -78,7 +78,7 @@ static int _cplx_peak_or_trough(
 
     real_t k0 = x2;
     *pk = k0;
-    *value = 0.0;
+    *value = f2;
     if(a != 0.0+0.0*I){
         k0 = - b / (2*a);
 
@@ -88,10 +88,9 @@ static int _cplx_peak_or_trough(
             // printf("a=%f%+fI, b=%f%+fI, c=%f%+fI, xarr=(%f,%f,%f), yarr=(%f%+fI, %f%+fI, %f%+fI)\n", 
             //         creal(a),cimag(a),creal(b),cimag(b),creal(c),cimag(c),x1,x2,x3,creal(f1),cimag(f1),creal(f2),cimag(f2),creal(f3),cimag(f3));
             *pk = k0;
-            *value = a*k0*k0 + b*k0;
+            *value = a*k0*k0 + b*k0 + c;
         }
     } 
-    *value += c;
     
     return stat;
 }
-- 
2.43.0


From 7b03f9ea562e241c1bbcb4f1b2cdcc91e823b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 33/37] fix: greenfn -H keeps band edges that fall on a
 frequency within rounding

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 1b71aaf..34ddc72 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -906,10 +906,10 @@ static void prepare_grn_spec(
     size_t nf1 = 0;
     size_t nf2 = nf - 1;
     if(freq1 > 0.0){
-        nf1 = GRT_MIN(ceil(freq1 / df), nf - 1);
+        nf1 = GRT_MIN(ceil(freq1 / df - 1e-8), nf - 1);  // 容许舍入误差，使频带为闭区间
     }
     if(freq2 > 0.0){
-        nf2 = GRT_MIN(floor(freq2 / df), nf - 1);
+        nf2 = GRT_MIN(floor(freq2 / df + 1e-8), nf - 1);
     }
     nf2 = GRT_MAX(nf1, nf2);
 
-- 
2.43.0


From 5b0342720f15b86911dee53de5c2ab3db31fb5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 34/37] fix: -F<f1>/<f2> of eigenfn, modsum and disp2asc keeps
 end points within rounding

---
 pygrt/C_extension/src/modal/modal_def.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/modal_def.c b/pygrt/C_extension/src/modal/modal_def.c
index d609b4f..881f2e0 100644
--- a/pygrt/C_extension/src/modal/modal_def.c
+++ b/pygrt/C_extension/src/modal/modal_def.c
@@ -104,7 +104,7 @@ void grt_filter_eigenfn_info(
             match = true;
         }
         else if(def_freq_range){
-            match = (in_freqs[iw] >= freqs[0] && in_freqs[iw] <= freqs[1]);
+            match = (in_freqs[iw] >= freqs[0] - 1e-8 && in_freqs[iw] <= freqs[1] + 1e-8);
         }
         else {
             size_t idx = grt_findClosest_real_t(freqs, nf, in_freqs[iw]);
-- 
2.43.0


From 4b8f45b39782c32e6727e20de7472726828164b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 35/37] fix: disp2asc: -F<T1>/<T2>+p takes the ends for
 frequencies

---
 pygrt/C_extension/src/tools/grt_disp2asc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index d9d1041..9fb24dd 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -226,8 +226,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         // 只约束最大值和最小值，内存申请由读取频散文件的过程中进行
                         Ctrl->F.nf = 2;
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
-                        Ctrl->F.freqs[0] = a1;
-                        Ctrl->F.freqs[1] = a2;
+                        Ctrl->F.freqs[0] = isperiod? 1.0/a2 : a1;
+                        Ctrl->F.freqs[1] = isperiod? 1.0/a1 : a2;
                         Ctrl->F.def_range = true;
                     }
                     
-- 
2.43.0


From ccd91b336618d48dd9651bf8b6ca0e095bb3f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 36/37] fix: travt: a range of distances takes memory for its
 values, not their square

---
 pygrt/C_extension/src/tools/grt_travt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index 4e4420d..e540284 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -172,7 +172,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         } while (place < 8);  // 最多小数点后 8 位
 
                         Ctrl->R.nr = GRT_RANGE_NUM(a1, a2, delta);
-                        Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*) * Ctrl->R.nr);
+                        Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*));
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
                         }
-- 
2.43.0


From 6875f141ac47b01c9d282a06512a8895047484c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:14 +0000
Subject: [PATCH 37/37] fix: a range of more values than memory can hold is an
 error, not a crash

---
 pygrt/C_extension/src/common/util.c               | 1 +
 pygrt/C_extension/src/dynamic/grt_kernel.c        | 3 +++
 pygrt/C_extension/src/lamb/grt_lamb1.c            | 1 +
 pygrt/C_extension/src/modal/grt_eigenfn.c         | 2 ++
 pygrt/C_extension/src/modal/grt_eigenv.c          | 1 +
 pygrt/C_extension/src/static/grt_static_greenfn.c | 2 ++
 pygrt/C_extension/src/static/grt_static_syn.c     | 2 ++
 pygrt/C_extension/src/tools/grt_disp2asc.c        | 1 +
 pygrt/C_extension/src/tools/grt_travt.c           | 1 +
 9 files changed, 14 insertions(+)

diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index 372fa19..7dc9bca 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -82,6 +82,7 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
         }
         n = GRT_RANGE_NUM(a1, a2, delta);
         s_vals = (char **)calloc(n, sizeof(char *));
+        if(s_vals == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", n);
         for(size_t i = 0; i < n; ++i){
             GRT_SAFE_ASPRINTF(&s_vals[i], "%.15g", a1 + delta * i);
         }
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 294e490..1d029fb 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -272,6 +272,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         GRTBadOptionError(F, "Too few frequency points, only %zu.", Ctrl->F.nf);
                     }
                     Ctrl->F.freqs = (real_t *)calloc(Ctrl->F.nf, sizeof(real_t));
+                    if(Ctrl->F.freqs == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->F.nf);
                     for(size_t i=0; i<Ctrl->F.nf; ++i){
                         Ctrl->F.freqs[i] = a1 + df*i;
                     }
@@ -320,6 +321,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
 
                         Ctrl->C.nc = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
+                        if(Ctrl->C.c_phases == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->C.nc);
                         for(size_t i=0; i<Ctrl->C.nc; ++i){
                             Ctrl->C.c_phases[i] = a1 + df*i;
                         }
@@ -400,6 +402,7 @@ int kernel_main(int argc, char **argv)
         Ctrl->C.cmax = vmax;
         Ctrl->C.nc = GRT_RANGE_NUM(Ctrl->C.cmin, Ctrl->C.cmax, Ctrl->C.dc);
         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
+        if(Ctrl->C.c_phases == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->C.nc);
         for(size_t i=0; i<Ctrl->C.nc; ++i){
             Ctrl->C.c_phases[i] = Ctrl->C.cmin + Ctrl->C.dc*i;
         }
diff --git a/pygrt/C_extension/src/lamb/grt_lamb1.c b/pygrt/C_extension/src/lamb/grt_lamb1.c
index 927d89d..f8d8458 100644
--- a/pygrt/C_extension/src/lamb/grt_lamb1.c
+++ b/pygrt/C_extension/src/lamb/grt_lamb1.c
@@ -113,6 +113,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                     Ctrl->T.nt = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->T.ts = (real_t*)calloc(Ctrl->T.nt, sizeof(real_t));
+                    if(Ctrl->T.ts == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->T.nt);
                     for(int i=0; i<Ctrl->T.nt; ++i){
                         Ctrl->T.ts[i] = a1 + delta*i;
                     }
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 4ec3cff..939532c 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -261,6 +261,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     if(nscan == 3 || nscan == 1){
                         Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
+                        if(Ctrl->F.freqs == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->F.nf);
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
                                 Ctrl->F.freqs[Ctrl->F.nf-1 - i] = 1.0/(a1 + df*i);
@@ -377,6 +378,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                                 Ctrl->W.nz = GRT_RANGE_NUM(a1, a2, dif);
                                 Ctrl->W.zs = (real_t*)calloc(Ctrl->W.nz, sizeof(real_t));
+                                if(Ctrl->W.zs == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->W.nz);
                                 for(size_t i=0; i<Ctrl->W.nz; ++i){
                                     Ctrl->W.zs[i] = a1 + dif*i;
                                 }
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index abe7591..7807672 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -291,6 +291,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                     Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                     Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
+                    if(Ctrl->F.freqs == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->F.nf);
                     for(size_t i = 0; i < Ctrl->F.nf; ++i){
                         if(isperiod){
                             Ctrl->F.freqs[Ctrl->F.nf-1 - i] = 1.0/(a1 + df*i);
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 0ed4705..6e44db3 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -469,6 +469,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                     Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
+                    if(Ctrl->X.norths == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->X.nnorth);
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
                     }
@@ -492,6 +493,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                     Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
+                    if(Ctrl->Y.easts == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->Y.neast);
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
                     }
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index 6666dab..fbcf043 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -496,6 +496,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                     Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
+                    if(Ctrl->X.norths == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->X.nnorth);
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
                     }
@@ -519,6 +520,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                     Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
+                    if(Ctrl->Y.easts == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->Y.neast);
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
                     }
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 9fb24dd..86500e7 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -214,6 +214,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     if(nscan == 3 || nscan == 1){
                         Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
+                        if(Ctrl->F.freqs == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->F.nf);
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
                                 Ctrl->F.freqs[Ctrl->F.nf-1 - i] = 1.0/(a1 + df*i);
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index e540284..4ac9736 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -173,6 +173,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
                         Ctrl->R.nr = GRT_RANGE_NUM(a1, a2, delta);
                         Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*));
+                        if(Ctrl->R.s_rs == NULL)  GRTRaiseError("Failed to allocate memory for %zu values.", (size_t)Ctrl->R.nr);
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
                         }
-- 
2.43.0

