From e3bb9fe2ca1163e9b2469edea1678f4baff0848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 01/23] fix: use one worker pool per separate-regimes fit and
 always shut it down

Each regime used to get its own pool of cpu_count processes, of which only
the last was ever closed; a killed worker left the caller waiting forever.
---
 spreg/error_sp_het_regimes.py | 129 ++++++++++++++++------------------
 spreg/error_sp_hom_regimes.py | 127 ++++++++++++++++-----------------
 spreg/error_sp_regimes.py     | 111 ++++++++++++++---------------
 spreg/ml_error_regimes.py     |  56 +++++++--------
 spreg/ml_lag_regimes.py       |  56 +++++++--------
 spreg/ols_regimes.py          |  56 +++++++--------
 spreg/twosls_regimes.py       |  64 ++++++++---------
 spreg/twosls_sp_regimes.py    |  70 +++++++++---------
 8 files changed, 311 insertions(+), 358 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..1ad2efb 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -4,7 +4,8 @@ Spatial Error with Heteroskedasticity and Regimes family of models
 __author__ = "Luc Anselin luc.anselin@asu.edu, Pedro V. Amaral pedro.amaral@asu.edu"
 
 import numpy as np
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 from . import user_output as USER
 from . import utils as UTILS
 from . import regimes as REGI
@@ -476,32 +477,11 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work_error,
-                    args=(
-                        y,
-                        x_constant,
-                        regi_ids,
-                        r,
-                        w,
-                        max_iter,
-                        epsilon,
-                        step1c,
-                        self.name_ds,
-                        self.name_y,
-                        name_x + ["lambda"],
-                        self.name_w,
-                        self.name_regimes,
-                        slx_lags,
-                        hard_bound,
-                    ),
-                )
-            else:
-                results_p[r] = _work_error(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work_error,
                         y,
                         x_constant,
                         regi_ids,
@@ -518,7 +498,26 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         slx_lags,
                         hard_bound,
                     )
-                )
+                else:
+                    results_p[r] = _work_error(
+                        *(
+                            y,
+                            x_constant,
+                            regi_ids,
+                            r,
+                            w,
+                            max_iter,
+                            epsilon,
+                            step1c,
+                            self.name_ds,
+                            self.name_y,
+                            name_x + ["lambda"],
+                            self.name_w,
+                            self.name_regimes,
+                            slx_lags,
+                            hard_bound,
+                        )
+                    )
 
         self.kryd = 0
         self.kr = len(cols2regi) + 1
@@ -534,9 +533,6 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         self.name_y, self.name_x = [], []
@@ -552,7 +548,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr) : ((counter + 1) * self.kr),
@@ -1175,38 +1171,11 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x + name_yend
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work_endog_error,
-                    args=(
-                        y,
-                        x_constant,
-                        yend,
-                        q,
-                        regi_ids,
-                        r,
-                        w,
-                        max_iter,
-                        epsilon,
-                        step1c,
-                        inv_method,
-                        self.name_ds,
-                        self.name_y,
-                        name_x,
-                        name_yend,
-                        name_q,
-                        self.name_w,
-                        self.name_regimes,
-                        add_lag,
-                        slx_lags,
-                        hard_bound,
-                    ),
-                )
-            else:
-                results_p[r] = _work_endog_error(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work_endog_error,
                         y,
                         x_constant,
                         yend,
@@ -1229,7 +1198,32 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         slx_lags,
                         hard_bound,
                     )
-                )
+                else:
+                    results_p[r] = _work_endog_error(
+                        *(
+                            y,
+                            x_constant,
+                            yend,
+                            q,
+                            regi_ids,
+                            r,
+                            w,
+                            max_iter,
+                            epsilon,
+                            step1c,
+                            inv_method,
+                            self.name_ds,
+                            self.name_y,
+                            name_x,
+                            name_yend,
+                            name_q,
+                            self.name_w,
+                            self.name_regimes,
+                            add_lag,
+                            slx_lags,
+                            hard_bound,
+                        )
+                    )
 
         self.kryd, self.kf = 0, 0
         self.kr = len(cols2regi) + 1
@@ -1244,9 +1238,6 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         (
@@ -1269,7 +1260,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr) : ((counter + 1) * self.kr),
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..18a92c8 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -6,7 +6,8 @@ __author__ = "Luc Anselin luc.anselin@asu.edu, Pedro V. Amaral pedro.amaral@asu.
 
 from scipy import sparse as SP
 import numpy as np
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 from numpy import linalg as la
 from libpysal.weights.spatial_lag import lag_spatial
 from .utils import power_expansion, set_endog, iter_msg, sp_att
@@ -488,32 +489,11 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work_error,
-                    args=(
-                        y,
-                        x_constant,
-                        regi_ids,
-                        r,
-                        w,
-                        max_iter,
-                        epsilon,
-                        A1,
-                        self.name_ds,
-                        self.name_y,
-                        name_x + ["lambda"],
-                        self.name_w,
-                        self.name_regimes,
-                        slx_lags,
-                        hard_bound,
-                    ),
-                )
-            else:
-                results_p[r] = _work_error(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work_error,
                         y,
                         x_constant,
                         regi_ids,
@@ -530,7 +510,26 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         slx_lags,
                         hard_bound,
                     )
-                )
+                else:
+                    results_p[r] = _work_error(
+                        *(
+                            y,
+                            x_constant,
+                            regi_ids,
+                            r,
+                            w,
+                            max_iter,
+                            epsilon,
+                            A1,
+                            self.name_ds,
+                            self.name_y,
+                            name_x + ["lambda"],
+                            self.name_w,
+                            self.name_regimes,
+                            slx_lags,
+                            hard_bound,
+                        )
+                    )
 
         self.kryd = 0
         self.kr = len(cols2regi) + 1
@@ -547,9 +546,6 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         counter = 0
@@ -564,7 +560,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr) : ((counter + 1) * self.kr),
@@ -1170,37 +1166,11 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x + name_yend
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work_endog_error,
-                    args=(
-                        y,
-                        x_constant,
-                        yend,
-                        q,
-                        regi_ids,
-                        r,
-                        w,
-                        max_iter,
-                        epsilon,
-                        A1,
-                        self.name_ds,
-                        self.name_y,
-                        name_x,
-                        name_yend,
-                        name_q,
-                        self.name_w,
-                        self.name_regimes,
-                        add_lag,
-                        slx_lags,
-                        hard_bound,
-                    ),
-                )
-            else:
-                results_p[r] = _work_endog_error(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work_endog_error,
                         y,
                         x_constant,
                         yend,
@@ -1222,7 +1192,31 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         slx_lags,
                         hard_bound,
                     )
-                )
+                else:
+                    results_p[r] = _work_endog_error(
+                        *(
+                            y,
+                            x_constant,
+                            yend,
+                            q,
+                            regi_ids,
+                            r,
+                            w,
+                            max_iter,
+                            epsilon,
+                            A1,
+                            self.name_ds,
+                            self.name_y,
+                            name_x,
+                            name_yend,
+                            name_q,
+                            self.name_w,
+                            self.name_regimes,
+                            add_lag,
+                            slx_lags,
+                            hard_bound,
+                        )
+                    )
 
         self.kryd, self.kf = 0, 0
         self.kr = len(cols2regi) + 1
@@ -1237,9 +1231,6 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         (
@@ -1262,7 +1253,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr) : ((counter + 1) * self.kr),
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..e6ccb1c 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -5,7 +5,8 @@ Spatial Error Models with regimes module
 __author__ = "Luc Anselin luc.anselin@asu.edu, Pedro V. Amaral pedro.amaral@asu.edu"
 
 import numpy as np
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 from . import regimes as REGI
 from . import user_output as USER
 from libpysal.weights.spatial_lag import lag_spatial
@@ -399,28 +400,11 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work_error,
-                    args=(
-                        y,
-                        x_constant,
-                        regi_ids,
-                        r,
-                        w,
-                        self.name_ds,
-                        self.name_y,
-                        name_x + ["lambda"],
-                        self.name_w,
-                        self.name_regimes,
-                        #slx_lags,
-                    ),
-                )
-            else:
-                results_p[r] = _work_error(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work_error,
                         y,
                         x_constant,
                         regi_ids,
@@ -433,7 +417,22 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         self.name_regimes,
                         #slx_lags,
                     )
-                )
+                else:
+                    results_p[r] = _work_error(
+                        *(
+                            y,
+                            x_constant,
+                            regi_ids,
+                            r,
+                            w,
+                            self.name_ds,
+                            self.name_y,
+                            name_x + ["lambda"],
+                            self.name_w,
+                            self.name_regimes,
+                            #slx_lags,
+                        )
+                    )
 
         self.kryd = 0
         self.kr = len(cols2regi)
@@ -449,9 +448,6 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         self.name_y, self.name_x = [], []
@@ -468,7 +464,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr): ((counter + 1) * self.kr),
@@ -998,33 +994,11 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x + name_yend
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work_endog_error,
-                    args=(
-                        y,
-                        x_constant,
-                        yend,
-                        q,
-                        regi_ids,
-                        r,
-                        w,
-                        self.name_ds,
-                        self.name_y,
-                        name_x,
-                        name_yend,
-                        name_q,
-                        self.name_w,
-                        self.name_regimes,
-                        add_lag,
-                        slx_lags,
-                    ),
-                )
-            else:
-                results_p[r] = _work_endog_error(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work_endog_error,
                         y,
                         x_constant,
                         yend,
@@ -1042,7 +1016,27 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         add_lag,
                         slx_lags,
                     )
-                )
+                else:
+                    results_p[r] = _work_endog_error(
+                        *(
+                            y,
+                            x_constant,
+                            yend,
+                            q,
+                            regi_ids,
+                            r,
+                            w,
+                            self.name_ds,
+                            self.name_y,
+                            name_x,
+                            name_yend,
+                            name_q,
+                            self.name_w,
+                            self.name_regimes,
+                            add_lag,
+                            slx_lags,
+                        )
+                    )
 
         self.kryd, self.kf = 0, 0
         self.kr = len(cols2regi)
@@ -1057,9 +1051,6 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         (
@@ -1083,7 +1074,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr): ((counter + 1) * self.kr),
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..9fd6436 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -6,7 +6,8 @@ __author__ = "Luc Anselin luc.anselin@asu.edu, Pedro V. Amaral pedro.amaral@asu.
 
 import libpysal
 import numpy as np
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 from . import regimes as REGI
 from . import user_output as USER
 from . import diagnostics as DIAG
@@ -416,30 +417,11 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work_error,
-                    args=(
-                        y,
-                        x_constant,
-                        regi_ids,
-                        r,
-                        w,
-                        slx_lags,
-                        method,
-                        epsilon,
-                        self.name_ds,
-                        self.name_y,
-                        name_x + ["lambda"],
-                        self.name_w,
-                        self.name_regimes,
-                    ),
-                )
-            else:
-                results_p[r] = _work_error(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work_error,
                         y,
                         x_constant,
                         regi_ids,
@@ -454,7 +436,24 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
                         self.name_w,
                         self.name_regimes,
                     )
-                )
+                else:
+                    results_p[r] = _work_error(
+                        *(
+                            y,
+                            x_constant,
+                            regi_ids,
+                            r,
+                            w,
+                            slx_lags,
+                            method,
+                            epsilon,
+                            self.name_ds,
+                            self.name_y,
+                            name_x + ["lambda"],
+                            self.name_w,
+                            self.name_regimes,
+                        )
+                    )
 
         self.kryd = 0
         self.kr = len(cols2regi) + 1
@@ -471,9 +470,6 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         counter = 0
@@ -488,7 +484,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr) : ((counter + 1) * self.kr),
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..149401b 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -8,7 +8,8 @@ import numpy as np
 from . import regimes as REGI
 from . import user_output as USER
 from . import diagnostics as DIAG
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 from .ml_lag import BaseML_Lag
 from .utils import set_warn, get_lags
 import pandas as pd
@@ -505,30 +506,11 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         name_x = name_x + [USER.set_name_yend_sp(name_y)]
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work,
-                    args=(
-                        y,
-                        x_constant,
-                        regi_ids,
-                        r,
-                        w_i[r],
-                        slx_lags,
-                        method,
-                        epsilon,
-                        name_ds,
-                        name_y,
-                        name_x,
-                        name_w,
-                        name_regimes,
-                    ),
-                )
-            else:
-                results_p[r] = _work(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work,
                         y,
                         x_constant,
                         regi_ids,
@@ -543,7 +525,24 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                         name_w,
                         name_regimes,
                     )
-                )
+                else:
+                    results_p[r] = _work(
+                        *(
+                            y,
+                            x_constant,
+                            regi_ids,
+                            r,
+                            w_i[r],
+                            slx_lags,
+                            method,
+                            epsilon,
+                            name_ds,
+                            name_y,
+                            name_x,
+                            name_w,
+                            name_regimes,
+                        )
+                    )
 
         self.kryd = 0
         self.kr = len(cols2regi) + 1
@@ -562,9 +561,6 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         self.name_y, self.name_x = [], []
@@ -580,7 +576,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
             self.vm[
                 (counter * self.kr) : ((counter + 1) * self.kr),
                 (counter * self.kr) : ((counter + 1) * self.kr),
diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..695fc15 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -5,7 +5,8 @@ Ordinary Least Squares regression with regimes.
 __author__ = "Luc Anselin, Pedro V. Amaral, Daniel Arribas-Bel"
 
 import numpy as np
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 import pandas as pd
 from . import regimes as REGI
 from . import user_output as USER
@@ -570,30 +571,11 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work,
-                    args=(
-                        self.y,
-                        x_constant,
-                        w,
-                        regi_ids,
-                        r,
-                        robust,
-                        sig2n_k,
-                        self.name_ds,
-                        self.name_y,
-                        name_x,
-                        self.name_w,
-                        self.name_regimes,
-                        slx_lags
-                    ),
-                )
-            else:
-                results_p[r] = _work(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work,
                         self.y,
                         x_constant,
                         w,
@@ -608,7 +590,24 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
                         self.name_regimes,
                         slx_lags
                     )
-                )
+                else:
+                    results_p[r] = _work(
+                        *(
+                            self.y,
+                            x_constant,
+                            w,
+                            regi_ids,
+                            r,
+                            robust,
+                            sig2n_k,
+                            self.name_ds,
+                            self.name_y,
+                            name_x,
+                            self.name_w,
+                            self.name_regimes,
+                            slx_lags
+                        )
+                    )
         self.kryd = 0
         self.kr = x_constant.shape[1]
         self.kf = 0
@@ -622,9 +621,6 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         self.name_y, self.name_x = [], []
@@ -640,7 +636,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
             (counter * self.kr): ((counter + 1) * self.kr),
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..31f802d 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1,5 +1,6 @@
 import numpy as np
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 import pandas as pd
 from . import regimes as REGI
 from . import user_output as USER
@@ -496,34 +497,11 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x + name_yend
-        for r in self.regimes_set:
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work,
-                    args=(
-                        self.y,
-                        x_constant,
-                        w,
-                        regi_ids,
-                        r,
-                        yend,
-                        q,
-                        robust,
-                        sig2n_k,
-                        self.name_ds,
-                        self.name_y,
-                        name_x,
-                        name_yend,
-                        name_q,
-                        self.name_w,
-                        self.name_regimes,
-                        slx_lags
-                    ),
-                )
-            else:
-                results_p[r] = _work(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work,
                         self.y,
                         x_constant,
                         w,
@@ -542,7 +520,28 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
                         self.name_regimes,
                         slx_lags
                     )
-                )
+                else:
+                    results_p[r] = _work(
+                        *(
+                            self.y,
+                            x_constant,
+                            w,
+                            regi_ids,
+                            r,
+                            yend,
+                            q,
+                            robust,
+                            sig2n_k,
+                            self.name_ds,
+                            self.name_y,
+                            name_x,
+                            name_yend,
+                            name_q,
+                            self.name_w,
+                            self.name_regimes,
+                            slx_lags
+                        )
+                    )
 
         self.kryd = 0
         self.kr = x_constant.shape[1] + yend.shape[1]
@@ -557,9 +556,6 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
 
         results = {}
         (
@@ -582,7 +578,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
 
             self.vm[
                 (counter * self.kr) : ((counter + 1) * self.kr),
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..1b78772 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -6,7 +6,8 @@ __author__ = "Luc Anselin luc.anselin@asu.edu, Pedro V. Amaral pedro.amaral@asu.
 
 import numpy as np
 import pandas as pd
-import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
+from contextlib import nullcontext
 from . import regimes as REGI
 from . import user_output as USER
 from .twosls_regimes import TSLS_Regimes, _optimal_weight
@@ -712,37 +713,12 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x
-        for r in self.regimes_set:
-            w_r = w_i[r].sparse
-            if cores:
-                pool = mp.Pool(None)
-                results_p[r] = pool.apply_async(
-                    _work,
-                    args=(
-                        y,
-                        x_constant,
-                        regi_ids,
-                        r,
-                        yend,
-                        q,
-                        w_r,
-                        w_lags,
-                        slx_lags,
-                        lag_q,
-                        robust,
-                        sig2n_k,
-                        self.name_ds,
-                        name_y,
-                        name_x,
-                        name_yend,
-                        name_q,
-                        self.name_w,
-                        name_regimes,
-                    ),
-                )
-            else:
-                results_p[r] = _work(
-                    *(
+        with ProcessPoolExecutor() if cores else nullcontext() as pool:
+            for r in self.regimes_set:
+                w_r = w_i[r].sparse
+                if cores:
+                    results_p[r] = pool.submit(
+                        _work,
                         y,
                         x_constant,
                         regi_ids,
@@ -763,7 +739,30 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                         self.name_w,
                         name_regimes,
                     )
-                )
+                else:
+                    results_p[r] = _work(
+                        *(
+                            y,
+                            x_constant,
+                            regi_ids,
+                            r,
+                            yend,
+                            q,
+                            w_r,
+                            w_lags,
+                            slx_lags,
+                            lag_q,
+                            robust,
+                            sig2n_k,
+                            self.name_ds,
+                            name_y,
+                            name_x,
+                            name_yend,
+                            name_q,
+                            self.name_w,
+                            name_regimes,
+                        )
+                    )
 
         self.kryd = 0
         self.kr = len(cols2regi) + 1
@@ -782,9 +781,6 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             pool.close()
             pool.join()
         """
-        if cores:
-            pool.close()
-            pool.join()
         results = {}
         (
             self.name_y,
@@ -806,7 +802,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             if not cores:
                 results[r] = results_p[r]
             else:
-                results[r] = results_p[r].get()
+                results[r] = results_p[r].result()
             results[r].predy_e, results[r].e_pred, warn = sp_att(
                 w_i[r],
                 results[r].y,
-- 
2.43.0


From de34e09d0653d35e686b67f45be4726bd15a07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 02/23] fix: do not swallow KeyboardInterrupt and MemoryError
 in catch-all handlers

Bare excepts treated an interrupt or an out-of-memory error like a missing
optional attribute or a failed candidate model: the fit went on and returned
a different report, model choice or partition.
---
 spreg/diagnostics_probit.py |  4 +-
 spreg/error_sp.py           |  2 +-
 spreg/nslx.py               |  2 +-
 spreg/ols_regimes.py        |  4 +-
 spreg/opt.py                |  4 +-
 spreg/output.py             | 36 +++++++-------
 spreg/regimes.py            |  2 +-
 spreg/robust.py             |  2 +-
 spreg/skater_reg.py         |  8 ++--
 spreg/spsearch.py           | 96 +++++++++++++++++++++++++++----------
 spreg/summary_output.py     | 80 +++++++++++++++----------------
 spreg/sur.py                |  2 +-
 spreg/sur_utils.py          | 20 ++++----
 spreg/twosls.py             |  4 +-
 spreg/twosls_regimes.py     |  2 +-
 spreg/twosls_sp_regimes.py  |  4 +-
 spreg/user_output.py        |  2 +-
 spreg/utils.py              | 10 ++--
 18 files changed, 168 insertions(+), 116 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 40c3edd..ac7f946 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -269,7 +269,7 @@ def sp_tests(regprob=None, obj_list=None):
 
     try:
         w = w.sparse
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         w = w
         
     # Pinkse_error:
@@ -320,7 +320,7 @@ def moran_KP(w, u, sig2i):
     """
     try:
         w = w.sparse
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     moran_num = np.dot(u.T, (w @ u))
     E = SP.lil_matrix(w.shape)
diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..1b1ce08 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1380,7 +1380,7 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
 def _momentsGM_Error(w, u):
     try:
         wsparse = w.sparse
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         wsparse = w
     n = wsparse.shape[0]
     u2 = np.dot(u.T, u)
diff --git a/spreg/nslx.py b/spreg/nslx.py
index b2aa5d7..da09485 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -132,7 +132,7 @@ class BaseNSLX(RegressionPropsY):
             waxtwax = wax.T @ wax
             try:
                 waxtwaxi = la.inv(waxtwax)
-            except:
+            except la.LinAlgError:
                 raise Exception("Singular variance matrix for nonlinear part")
             vb[-h:,-h:] = waxtwaxi
             self.vm = vb * self.sig2
diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 695fc15..e30db52 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -534,7 +534,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
                 top_diag = _nonspat_top(self)
                 try:
                     self.other_top += top_diag
-                except:
+                except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                     self.other_top = top_diag
             if spat_diag:
                 other_end += _spat_diag_out(self, w, 'ols', moran=moran) #Must decide what to do with W.
@@ -658,7 +658,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
                                                        'regime': r, 'equation': r})], ignore_index=True)
             try:
                 results[r].other_top = self.other_top
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 results[r].other_top = ""
             results[r].other_mid = ""
             if nonspat_diag:
diff --git a/spreg/opt.py b/spreg/opt.py
index e23b7aa..a10aec1 100644
--- a/spreg/opt.py
+++ b/spreg/opt.py
@@ -41,7 +41,9 @@ def simport(modname):
     try:
         exec("import {}".format(modname))
         return True, eval(modname)
-    except:
+    except MemoryError:
+        raise
+    except Exception:
         return False, None
 
 
diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..b2920d8 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -22,7 +22,7 @@ def output(reg, vm, other_end=False, robust=False, latex=False):
         try:
             reg.multi[eq].__summary = {}
             strSummary, reg.multi[eq] = out_part_top(strSummary, reg, eq)
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             eq = None
             strSummary, reg = out_part_top(strSummary, reg, eq)
         strSummary, reg = out_part_middle(strSummary, reg, robust, m=eq, latex=latex)
@@ -53,7 +53,7 @@ def out_part_top(strSummary, reg, m):
     strSummary += "%-20s:%12s\n" % ("Data set", _reg.name_ds)
     try:
         strSummary += "%-20s:%12s\n" % ("Weights matrix", _reg.name_w)
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
     strSummary += "%-20s:%12s                %-22s:%12d\n" % (
@@ -99,7 +99,7 @@ def out_part_top(strSummary, reg, m):
 
     try:  # Adding additional top part if there is one
         strSummary += _reg.other_top
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
     return (strSummary, _reg)
@@ -181,24 +181,24 @@ def out_part_middle(strSummary, reg, robust, m=None, latex=False):
         inst2 += "\n"
         inst2 += insts
         strSummary += inst2
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
     try:  # Adding info on regimes if they are present
         strSummary += ("Regimes variable: %s\n" % _reg.name_regimes)
         strSummary += _summary_chow(_reg)  # If local regimes present, compute Chow test.
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
     try:  # Adding local warning if there is one
         if _reg.warning:
             strSummary += _reg.warning
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
     try:  # Adding other middle part if there are any
         strSummary += _reg.other_mid
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
     return (strSummary, reg)
@@ -208,12 +208,12 @@ def out_part_end(strSummary, reg, vm, other_end, m=None):
         strSummary += "------------------------------------------------------------------------------------\n"
         try:  # Adding global warning if there is one
             strSummary += reg.warning
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
         strSummary += "\nGLOBAL DIAGNOSTICS\n"
         try:  # Adding global Chow test if there is one
             strSummary += _summary_chow(reg)
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
     if other_end:
         strSummary += other_end
@@ -226,11 +226,11 @@ def _summary_chow(reg):
     sum_text = "\nREGIMES DIAGNOSTICS\n"
     try:
         tot_SSR = reg.score
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         tot_SSR = np.dot(reg.u.T, reg.u)
     try:
         n_clust = reg.nr
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         n_clust = len(set(reg.clusters))
     sum_text += "%-20s:%14.2f\n%-20s:%14d\n" % (
             "Overall SSR", tot_SSR, "Number of clusters", n_clust)
@@ -323,7 +323,9 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
                 reg.rlm_durlag = lm_tests2.rlmdurlag
                 reg.lm_slxerr = lm_tests2.lmslxerr #currently removed. - LA reinstated
                 koley_bera = True
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 koley_bera = False
         reg.lm_error = lm_tests.lme
         reg.lm_lag = lm_tests.lml
@@ -522,7 +524,7 @@ def _nonspat_mid(reg, white_test=False):
                     reg.white["wh"],
                     reg.white["pvalue"],
                 )
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     return strSummary
 
@@ -541,7 +543,7 @@ def _summary_vm(reg):
     try:
         for name in reg.name_z:
             strVM += "%12s" % (name)
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         for name in reg.name_x:
             strVM += "%12s" % (name)
     strVM += "\n"
@@ -557,7 +559,7 @@ def _summary_iteration(reg):
     """Reports the number of iterations computed and the type of estimator used for hom and het models."""
     try:
         niter = reg.niter
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         niter = reg.iteration
 
     txt = "%-20s:%12s\n" % ("N. of iterations", niter)
@@ -571,7 +573,7 @@ def _summary_iteration(reg):
             "Step1c computed",
             step1c,
         )
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
        pass
 
     try:
@@ -579,7 +581,7 @@ def _summary_iteration(reg):
             "A1 type: ",
             reg.A1,
         )
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
     return txt
diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..74300b8 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -657,7 +657,7 @@ def check_cols2regi(constant_regi, cols2regi, x, yend=None, add_cons=True):
         regi_cons = []
     try:
         tot_k = x.shape[1] + yend.shape[1]
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         tot_k = x.shape[1]
     if cols2regi == "all":
         cols2regi = regi_cons + [True] * tot_k
diff --git a/spreg/robust.py b/spreg/robust.py
index caf5891..b753179 100644
--- a/spreg/robust.py
+++ b/spreg/robust.py
@@ -153,7 +153,7 @@ def hac_multi(reg, gwk, constant=False):
         try:
             psi1 = spdot(reg.multi[m].varb, reg.multi[m].zthhthi)
             reg.multi[m].vm = spdot(psi1, np.dot(psi0, psi1.T))
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             reg.multi[m].vm = spdot(reg.multi[m].xtxi, np.dot(psi0, reg.multi[m].xtxi))
         reg.vm[
             (counter * reg.kr) : ((counter + 1) * reg.kr),
diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..1c66c7e 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -612,12 +612,12 @@ class Skater_reg(object):
         try:
             if data_reg["reg"].__name__ == "GM_Lag" or data_reg["reg"].__name__ == "BaseGM_Lag":
                 data_reg = self._prep_lag(data_reg)
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
 
         try:
             old_score = sum(trees_scores.values())
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
         best_scores = {}
         current_list = current_labels.tolist()
@@ -658,7 +658,7 @@ class Skater_reg(object):
                 try:
                     d_score = trees_scores[current_tree] - new_score
                     score = old_score - d_score
-                except:
+                except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                     d_score = -new_score
                     score = new_score
                 # if the d_score is greater than the best score and quorum is met
@@ -672,7 +672,7 @@ class Skater_reg(object):
                             ] = trees_scores[i]
                         for i in new_trees_scores:
                             best_scores[i] = new_trees_scores[i]
-                    except:
+                    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                         best_scores = new_trees_scores
                     best_MSF = local_MSF
                     best_labels = local_labels
diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..c84ce34 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -217,7 +217,9 @@ def stge_classic(
                     elif p_rlag > p_rerror:
                         result = "ERROR_Br"
                         k = 2
-                except:
+                except MemoryError:
+                    raise
+                except Exception:
                     if p_rlag <= p_rerror:
                         result = "LAG_BR"
                         k = 1
@@ -253,7 +255,9 @@ def stge_classic(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GM LAG parameters outside bounds"
                 finreg = False
         elif k == 2:  # ERROR
@@ -270,7 +274,9 @@ def stge_classic(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GMM Error parameters outside bounds"
                 finreg = False
         elif k == 3:  # SARSAR
@@ -288,7 +294,9 @@ def stge_classic(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: SARSAR parameters outside bounds"
                 finreg = False
 
@@ -451,7 +459,9 @@ def stge_kb(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GM Lag parameters outside bounds"
                 finreg = False
         elif k == 2:  # SLX
@@ -482,7 +492,9 @@ def stge_kb(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: SDM parameters outside bounds"
                 finreg = False
         if mprint:
@@ -694,7 +706,9 @@ def stge_pre(
                         k = idv + 2
                         result = models[k]
 
-                except:  # ignore lag model
+                except MemoryError:
+                    raise
+                except Exception:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
                         result = models[1]
@@ -731,7 +745,9 @@ def stge_pre(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GM LAG parameters outside bounds"
                 finreg = False
         elif k == 2 or k == 6:
@@ -748,7 +764,9 @@ def stge_pre(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GMM Error parameters outside bounds"
                 finreg = False
         elif k == 3 or k == 7:
@@ -767,7 +785,9 @@ def stge_pre(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = (
                     result + " -- Exception: autoregressive parameters outside bounds"
                 )
@@ -874,7 +894,9 @@ def gets_gns(
                 name_ds=name_ds,
                 latex=latex,
             )
-        except:
+        except MemoryError:
+            raise
+        except Exception:
             result = "Exception: GNS parameters out of bounds"
             print(result)
             return (result, finreg)
@@ -898,7 +920,9 @@ def gets_gns(
                 name_ds=name_ds,
                 latex=latex,
             )
-        except:
+        except MemoryError:
+            raise
+        except Exception:
             result = "Exception: GNS parameters out of bounds"
             print(result)
             return (result, finreg)
@@ -935,7 +959,9 @@ def gets_gns(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = "Exception: SDM parameters out of bounds"
                 print(result)
                 return (result, finreg)
@@ -981,7 +1007,9 @@ def gets_gns(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = "Exception: SLX Error parameters out of bounds"
                 print(result)
                 return (result, finreg)
@@ -1022,7 +1050,9 @@ def gets_gns(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = "Exception: SARSAR parameters out of bounds"
                 print(result)
                 return (result, finreg)
@@ -1086,7 +1116,9 @@ def gets_gns(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GMM Error parameters outside bounds"
                 finreg = False
         elif result == "LAG":
@@ -1104,7 +1136,9 @@ def gets_gns(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GM LAG parameters outside bounds"
                 finreg = False
         if mprint:
@@ -1209,7 +1243,9 @@ def gets_sdm(
                 name_ds=name_ds,
                 latex=latex,
             )
-        except:
+        except MemoryError:
+            raise
+        except Exception:
             result = "Exception: SDM parameters out of bounds"
             print(result)
             return (result, finreg)
@@ -1232,7 +1268,9 @@ def gets_sdm(
                 name_ds=name_ds,
                 latex=latex,
             )
-        except:
+        except MemoryError:
+            raise
+        except Exception:
             result = "Exception: SDM parameters out of bounds"
             print(result)
             return (result, finreg)
@@ -1318,7 +1356,9 @@ def gets_sdm(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = "Exception: LAG parameters out of bounds"
                 print(result)
                 return (result, finreg)
@@ -1348,7 +1388,9 @@ def gets_sdm(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GMM Error parameters outside bounds"
                 finreg = False
         elif result == "SARSAR":
@@ -1367,7 +1409,9 @@ def gets_sdm(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: SARSAR parameters out of bounds"
                 return (result, finreg)
         elif result == "SLX-Err":
@@ -1384,7 +1428,9 @@ def gets_sdm(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: SLX Error parameters out of bounds"
                 return (result, finreg)
         elif result == "GNS":
@@ -1403,7 +1449,9 @@ def gets_sdm(
                     name_ds=name_ds,
                     latex=latex,
                 )
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 result = result + " -- Exception: GNS parameters out of bounds"
         if mprint:
             print(msel + result)
diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 33145e8..24dfc17 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -800,7 +800,7 @@ def SUR(
                 "Number of Iterations",
                 reg.niter,
             )
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             sum_str = "%-20s:%12.3f\n" % ("Log likelihood (SUR)", reg.llik)
         summary_add_other_top(reg, sum_str)
     if lambd:
@@ -812,7 +812,7 @@ def SUR(
                 reg.surerrllik,
             )
             summary_add_other_top(reg, sum_str)
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
     # build coefficients table body
     summary_coefs_sur(reg, lambd=lambd, regimes=regimes)
@@ -1037,7 +1037,7 @@ def summary(
         summary += reg.__summary["summary_nonspat_diag_1"]
     try:
         summary += reg.__summary["summary_other_top"]
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     summary += summary_coefs_intro(reg)
     summary += reg.__summary["summary_coefs"]
@@ -1046,7 +1046,7 @@ def summary(
         summary += reg.__summary["summary_coefs_instruments"]
     try:
         summary += reg.__summary["summary_other_mid"]
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     if nonspat_diag:
         summary += reg.__summary["summary_nonspat_diag_2"]
@@ -1057,7 +1057,7 @@ def summary(
         summary += summary_vm(reg, instruments)
     try:
         summary += reg.__summary["summary_chow"]
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     if other_end:
         summary += reg.__summary["summary_other_end"]
@@ -1085,7 +1085,7 @@ def summary_multi(
             summary += mreg.__summary["summary_nonspat_diag_1"]
         try:
             summary += reg.__summary["summary_other_top"]
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
         summary += summary_coefs_intro(mreg)
         summary += mreg.__summary["summary_coefs"]
@@ -1094,12 +1094,12 @@ def summary_multi(
             summary += mreg.__summary["summary_coefs_instruments"]
         try:
             summary += mreg.__summary["summary_other_mid"]
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
         if m == list(multireg.keys())[-1]:
             try:
                 summary += reg.__summary["summary_other_mid"]
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 pass
         if nonspat_diag:
             summary += mreg.__summary["summary_nonspat_diag_2"]
@@ -1113,18 +1113,18 @@ def summary_multi(
         if m == list(multireg.keys())[-1]:
             try:
                 summary += reg.__summary["summary_chow"]
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 pass
             if spat_diag:
                 try:
                     spat_diag_str = reg.__summary["summary_spat_diag"]
                     summary += summary_spat_diag_intro_global()
                     summary += spat_diag_str
-                except:
+                except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                     pass
             try:
                 summary += reg.__summary["summary_other_end"]
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 pass
     summary += summary_close()
     reg.summary = summary
@@ -1141,7 +1141,7 @@ def summary_SUR(reg, short_intro=True):
     )
     try:
         summary += reg.__summary["summary_other_top"]
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     summary += "----------\n\n"
     for m in list(reg.name_bigy.keys()):
@@ -1154,21 +1154,21 @@ def summary_SUR(reg, short_intro=True):
         summary += "------------------------------------------------------------------------------------\n"
         try:
             summary += reg.__summary[m]["summary_coefs_instruments"]
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
         try:
             summary += reg.__summary["summary_other_mid"]
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
         try:
             summary += reg.__summary[m]["summary_chow"]
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
 
         summary += "\n"
     try:
         summary += reg.__summary["summary_other_end"]
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     summary += summary_close()
     reg.summary = summary
@@ -1177,7 +1177,7 @@ def summary_SUR(reg, short_intro=True):
 def _get_var_indices(reg, zt_stat, lambd=False):
     try:
         var_names = reg.name_z
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         var_names = reg.name_x
     last_v = len(var_names)
     if lambd:
@@ -1190,7 +1190,7 @@ def _get_var_indices(reg, zt_stat, lambd=False):
         krex = reg.kr - reg.kryd
         try:
             kfyd = reg.yend.shape[1] - reg.nr * reg.kryd
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             kfyd = 0
         j_con = 0
         if reg.constant_regi == "many":
@@ -1219,7 +1219,7 @@ def _get_var_indices(reg, zt_stat, lambd=False):
 
             # name_reg.sort()
             indices += [var_names.index(ind) for ind in name_reg]
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         # indices = [0] + (np.argsort(var_names[1:last_v]) + 1).tolist()
         indices = list(range(len(var_names[1:last_v]) + 1))
     return var_names, indices
@@ -1252,7 +1252,7 @@ def summary_intro(reg, short, sur=False):  # extra space d
     strSummary += "%-20s:%12s\n" % ("Data set", reg.name_ds)
     try:
         strSummary += "%-20s:%12s\n" % ("Weights matrix", reg.name_w)
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     if not sur:
         strSummary += "%-20s:%12s                %-22s:%12d\n" % (
@@ -1336,7 +1336,7 @@ def summary_coefs_sur(reg, lambd=False, regimes=False):
     try:
         betas = reg.bSUR
         inf = reg.sur_inf
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         betas = reg.b3SLS
         inf = reg.tsls_inf
     if regimes:
@@ -1376,7 +1376,7 @@ def summary_coefs_sur(reg, lambd=False, regimes=False):
                         inf[eq][h + j][1],
                         inf[eq][h + j][2],
                     )
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 pass
         if lambd:
             pos = list(reg.name_bigy.keys()).index(eq)
@@ -1388,7 +1388,7 @@ def summary_coefs_sur(reg, lambd=False, regimes=False):
                     reg.lamsetp[1][pos][0],
                     reg.lamsetp[2][pos][0],
                 )
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 strSummary += "%20s    %12.7f    \n" % (
                     "lambda_" + str(eq + 1),
                     reg.lamsur[pos].item(),
@@ -1429,7 +1429,7 @@ def summary_coefs_yend(reg, zt_stat, lambd=False):
 def summary_coefs_lambda(reg, zt_stat):
     try:
         name_var = reg.name_z
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         name_var = reg.name_x
     if len(reg.betas) == len(zt_stat):
         reg.__summary["summary_coefs"] += (
@@ -1484,7 +1484,7 @@ def summary_iteration(reg):  # extra space d
     """Reports the number of iterations computed."""
     try:
         niter = reg.niter
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         niter = reg.iteration
     try:
         if reg.step1c:
@@ -1497,7 +1497,7 @@ def summary_iteration(reg):  # extra space d
             "Step1c computed",
             step1c,
         )
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         txt = "%-20s:%12s\n" % ("N. of iterations", niter)
 
     summary_add_other_top(reg, txt)
@@ -1506,7 +1506,7 @@ def summary_iteration(reg):  # extra space d
 def summary_add_other_top(reg, sum_str):
     try:
         reg.__summary["summary_other_top"] += sum_str
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         reg.__summary["summary_other_top"] = sum_str
 
 
@@ -1516,7 +1516,7 @@ def summary_regimes(reg, chow=True):
         reg.__summary["summary_other_mid"] += (
             "Regimes variable: %s\n" % reg.name_regimes
         )
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         reg.__summary["summary_other_mid"] = "Regimes variable: %s\n" % reg.name_regimes
     if chow:
         summary_chow(reg)
@@ -1535,19 +1535,19 @@ def summary_sur(reg, u_cov=False):
             str_ucv += "\n"
         try:
             reg.__summary['summary_other_end'] += str_ucv
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             reg.__summary['summary_other_end'] = str_ucv
     else:
         try:
             reg.__summary[
                 'summary_other_mid'] += "Equation ID: %s\n" % reg.name_multiID
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             reg.__summary[
                 'summary_other_mid'] = "Equation ID: %s\n" % reg.name_multiID
         try:
             reg.__summary[
                 'summary_r2'] += "%-20s: %3.4f\n" % ('Log-Likelihood', reg.logl)
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
 #'''
 
@@ -1600,16 +1600,16 @@ def summary_warning(reg, global_reg=None):
         if reg.warning:
             try:
                 reg.__summary["summary_other_mid"] += reg.warning
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 reg.__summary["summary_other_mid"] = reg.warning
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     try:
         try:
             reg.__summary["summary_other_mid"] += global_reg.warning
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             reg.__summary["summary_other_mid"] = global_reg.warning
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
 
 
@@ -1728,7 +1728,7 @@ def summary_nonspat_diag_2(reg):
                     reg.white["wh"],
                     reg.white["pvalue"],
                 )
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     return strSummary
 
@@ -1829,7 +1829,7 @@ def summary_diag_sur(
         try:
             if reg.joinrho != None:
                 rho = True
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             pass
         if spat_diag and rho:
             strSummary = ""
@@ -1857,7 +1857,7 @@ def summary_diag_sur(
                         reg.lmtest[0],
                         reg.lmtest[2],
                     )
-                except:
+                except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                     pass
                 strSummary += "%41s        %2d   %10.3f           %6.4f\n" % (
                     "LR test on Sigma",
@@ -1884,7 +1884,7 @@ def summary_diag_sur(
     try:
         if reg.lamtest != None:
             chow_lamb = True
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         pass
     if nonspat_diag or (spat_diag and chow_lamb):
         if reg.surchow != None:
@@ -1945,7 +1945,7 @@ def summary_diag_sur(
 def summary_add_other_end(reg, strSummary):
     try:
         reg.__summary["summary_other_end"] += strSummary
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         reg.__summary["summary_other_end"] = strSummary
 
 
diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..c19c0a6 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -984,7 +984,7 @@ def _get_bigZhat(reg, bigX, bigyend, bigH):
     for r in range(reg.n_eq):
         try:
             HHi = la.inv(spdot(bigH[r].T, bigH[r]))
-        except:
+        except la.LinAlgError:
             raise Exception("ERROR: singular cross product matrix, check instruments")
         Hye = spdot(bigH[r].T, bigyend[r])
         yp = spdot(bigH[r], spdot(HHi, Hye))
diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..7277bfb 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -57,7 +57,7 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         n_eq = len(y_vars)
         try:
             y = np.array([db[name] for name in y_vars]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             y = np.array([db.by_col(name) for name in y_vars]).T
         n = y.shape[0]
         bigy = {}
@@ -70,7 +70,7 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for r in range(n_eq):
             try:
                 litx = np.array([db[name] for name in x_vars[r]]).T
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 litx = np.array([db.by_col(name) for name in x_vars[r]]).T
     
             x_vars_copy = x_vars[r].copy()          
@@ -86,16 +86,16 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
             raise Exception("Error: time id must be specified")
         try:
             y = np.array([db[name] for name in y_vars]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             y = np.array([db.by_col(name) for name in y_vars]).T
         bign = y.shape[0]
         try:
             ss = np.array([db[name] for name in space_id]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             ss = np.array([db.by_col(name) for name in space_id]).T
         try:
             tt = np.array([db[name] for name in time_id]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             tt = np.array([db.by_col(name) for name in time_id]).T
         tt1 = set([val for sublist in tt.tolist() for val in sublist])
         n_eq = len(tt1)
@@ -105,7 +105,7 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         n = bign / n_eq
         try:
             longx = np.array([db[name] for name in x_vars[0]]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             longx = np.array([db.by_col(name) for name in x_vars[0]]).T
         longxc = np.hstack((np.ones((bign, 1)), longx))
         x_vars_copy = x_vars.copy()
@@ -183,7 +183,7 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
             z_vars_copy = z_vars[r].copy()             
             try:
                 litz = np.array([db[name] for name in z_vars_copy]).T
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 litz = np.array([db.by_col(name) for name in z_vars_copy]).T
             if const:
                 ic = c + "_" + str(r + 1)
@@ -198,11 +198,11 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
             raise Exception("Error: time id must be specified for plm format")
         try:
             ss = np.array([db[name] for name in space_id]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             ss = np.array([db.by_col(name) for name in space_id]).T
         try:
             tt = np.array([db[name] for name in time_id]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             tt = np.array([db.by_col(name) for name in time_id]).T
         bign = tt.shape[0]
         tt1 = set([val for sublist in tt.tolist() for val in sublist])
@@ -213,7 +213,7 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         n = bign / n_eq
         try:
             longz = np.array([db[name] for name in z_vars[0]]).T
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             longz = np.array([db.by_col(name) for name in z_vars[0]]).T
         zvars = z_vars[0][:].copy()
         if const:
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..3f8b29b 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -160,7 +160,7 @@ class BaseTSLS(RegressionPropsY, RegressionPropsVM):
 
         try:
             hthi = la.inv(hth)
-        except:
+        except la.LinAlgError:
             raise Exception("H'H singular - no inverse")
         
         zth = spdot(z.T, h)
@@ -171,7 +171,7 @@ class BaseTSLS(RegressionPropsY, RegressionPropsVM):
 
         try:
             varb = la.inv(factor_2)
-        except:
+        except la.LinAlgError:
             raise Exception("Singular matrix Z'H(H'H)^-1H'Z - endogenous variable(s) may be part of X")
         
         factor_3 = np.dot(varb, factor_1)
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 31f802d..9d7a1af 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -696,7 +696,7 @@ def _work(
 def _optimal_weight(reg, sig2n_k, warn=True):
     try:
         Hu = reg.h.toarray() * reg.u ** 2
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         Hu = reg.h * reg.u ** 2
     if sig2n_k:
         S = spdot(reg.h.T, Hu, array_out=True) / (reg.n - reg.k)
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 1b78772..39ab1a9 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -650,7 +650,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             top_diag = _spat_pseudo_r2(self)
             try:
                 self.other_top = top_diag + self.other_top
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 self.other_top = top_diag
             self.slx_lags = slx_lags
             diag_out = None
@@ -844,7 +844,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             ] = results[r].h
             try:
                 results[r].other_top = self.other_top
-            except:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 results[r].other_top = ""
             results[r].other_top += _spat_pseudo_r2(results[r])
             results[r].other_mid = ""
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..53fbe8b 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -506,7 +506,7 @@ def check_y(y, n, name_y=None):
     if len(shape) == 1:
         try:
             y = y.reshape(n, 1)
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             raise Exception(
                 "y must be a single column array matching the length of other arrays"
             )
diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..2e1e3db 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -458,7 +458,7 @@ def get_spFilter(w, lamb, sf):
     """
     try:
         ws = w.sparse
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         ws = w
     T = sf.shape[0] // ws.shape[0]
     if T == 1:
@@ -620,7 +620,7 @@ def inverse_prod(
     elif inv_method == "true_inv":
         try:
             matrix = la.inv(np.eye(w.n) - (scalar * w.full()[0]))
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             matrix = la.inv(np.eye(w.shape[0]) - (scalar * w))
         if post_multiply:
 #            inv_prod = spdot(data.T, matrix)
@@ -651,7 +651,7 @@ def power_expansion(
     """
     try:
         ws = w.sparse
-    except:
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError):
         ws = w
     if post_multiply:
         data = data.T
@@ -782,7 +782,7 @@ def set_warn(reg, warn):
     if warn:
         try:
             reg.warning += "Warning: " + warn + "\n"
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             reg.warning = "Warning: " + warn + "\n"
     else:
         pass
@@ -799,7 +799,7 @@ def RegressionProps_basic(
     else:
         try:
             reg.predy = spdot(reg.z, reg.betas)
-        except:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             reg.predy = spdot(reg.x, reg.betas)
     if u is not None:
         reg.u = u
-- 
2.43.0


From 0125494888f7a55a8ad9634b87bd0e8e6931690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 03/23] fix: maximum likelihood fits no longer switch the
 caller's weights to another transformation

---
 spreg/ml_error.py |  4 ++--
 spreg/ml_lag.py   |  4 ++--
 spreg/panel_re.py |  4 ++--
 spreg/w_utils.py  | 32 +++++++++++++++++++++++++-------
 4 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..9eba6e1 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -14,7 +14,7 @@ from .utils import RegressionPropsY, RegressionPropsVM, set_warn, get_lags
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import regimes as REGI
-from .w_utils import symmetrize
+from .w_utils import symmetrize, is_symmetric
 import pandas as pd
 from .output import output, _nonspat_top
 
@@ -203,7 +203,7 @@ class BaseML_Error(RegressionPropsY, RegressionPropsVM, REGI.Regimes_Frame):
                 W = Wsp
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
+                if is_symmetric(w):
                     ww = symmetrize(w)
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..dd9bbeb 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -17,7 +17,7 @@ from . import diagnostics as DIAG
 from . import user_output as USER
 import pandas as pd
 from .output import output, _nonspat_top, _spat_diag_out, _spat_pseudo_r2, _summary_impacts
-from .w_utils import symmetrize
+from .w_utils import symmetrize, is_symmetric
 from libpysal import weights
 
 try:
@@ -235,7 +235,7 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                 )
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
+                if is_symmetric(w):
                     ww = symmetrize(w)
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index a55e9b9..57632a1 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -20,7 +20,7 @@ from scipy import sparse as sp
 from scipy.sparse.linalg import splu as SuperLU
 from .utils import RegressionPropsY, RegressionPropsVM, inverse_prod, set_warn
 from .sputils import spdot, spfill_diagonal, spinv
-from spreg.w_utils import symmetrize
+from spreg.w_utils import symmetrize, is_symmetric
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import summary_output as SUMMARY
@@ -486,7 +486,7 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        if w.asymmetry(intrinsic=False) == []:
+        if is_symmetric(w):
             ww = symmetrize(w)
             WW = np.array(ww.todense())
             evals, evecs = la.eigh(WW)
diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..014951e 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -15,12 +15,30 @@ def symmetrize(w):
     a sparse symmetric matrix with same eigenvalues as w
 
     """
-    current = w.transform
-    w.transform = "B"
-    d = w.sparse.sum(axis=1)  # row sum
-    d.shape = (w.n,)
-    d = np.sqrt(d)
+    ws = w.sparse.tocsr()
+    d = np.sqrt(np.diff(ws.indptr))  # number of neighbors
+    rowsum = np.asarray(ws.sum(axis=1)).reshape(-1)
     Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
     D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
-    w.transform = "r"
-    return D12 @ w.sparse @ Di12
+    Ri = SPARSE.dia_matrix((1.0 / rowsum, [0]), shape=(w.n, w.n))
+    return D12 @ (Ri @ ws) @ Di12
+
+
+def is_symmetric(w):
+    """Check whether neighbor relations are mutual, leaving w untouched
+
+    w.asymmetry(intrinsic=False) answers the same question, but switches the
+    transformation of w back and forth while it does.
+
+    Parameters
+    ----------
+    w: weights object
+
+    Returns
+    -------
+    True if j is a neighbor of i whenever i is a neighbor of j
+
+    """
+    pattern = w.sparse.tocsr().copy()
+    pattern.data = np.ones_like(pattern.data, dtype=float)
+    return abs(pattern - pattern.T).nnz == 0
-- 
2.43.0


From ef901d04d9decb57bbcf72186d8d86518c7d571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 04/23] fix: Skater_reg.fit and check_endog work on copies of
 the caller's weights, data and arrays

---
 spreg/skater_reg.py  | 5 +++--
 spreg/user_output.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 1c66c7e..5bdd105 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,8 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
-        W.transform = "b"
-        W = W.sparse
+        W = W.sparse.astype(float)  # a copy: the weights belong to the caller
+        W.data[:] = 1.0
         start = time.time()
 
         super_verbose = verbose > 1
@@ -537,6 +537,7 @@ class Skater_reg(object):
 
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
+        data_reg = data_reg.copy()
         data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 53fbe8b..723cce7 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape(-1, 1)
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From f59c5ac77734564a865ea70c06a40b25b5be3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 05/23] fix: SUR models build regimes and lags on copies of the
 caller's dictionaries

---
 spreg/sur.py       | 3 +++
 spreg/sur_error.py | 2 ++
 spreg/sur_lag.py   | 8 ++++++++
 3 files changed, 13 insertions(+)

diff --git a/spreg/sur.py b/spreg/sur.py
index c19c0a6..c30921f 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -457,6 +457,7 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
             self.name_x_r = name_bigX
+            bigX = dict(bigX)  # regimes are built on copies of the caller's dictionaries
             cols2regi_dic = {}
             self.name_bigX = {}
             for r in range(self.n_eq):
@@ -869,6 +870,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             self.name_regimes = USER.set_name_ds(name_regimes)
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
+            # regimes are built on copies of the caller's dictionaries
+            bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
             cols2regi_dic = {}
             self.name_bigX, self.name_x_r, self.name_bigq, self.name_bigyend = (
                 {},
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..ad96aad 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -355,6 +355,7 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             self.name_regimes = USER.set_name_ds(name_regimes)
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
+            bigX = dict(bigX)  # regimes are built on a copy of the caller's dictionary
             cols2regi_dic = {}
             self.name_bigX = {}
             self.name_x_r = name_bigX
@@ -803,6 +804,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
             self.name_x_r = name_bigX
+            bigX = dict(bigX)  # regimes are built on a copy of the caller's dictionary
             cols2regi_dic = {}
             self.name_bigX = {}
             for r in range(self.n_eq):
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..cd18a17 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -244,6 +244,14 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend (if provided) and bigq (if provided) must be all lists or all dictionaries")
 
+        # lags, regimes and their names are added to copies of the caller's dictionaries
+        bigX = dict(bigX)
+        bigyend = None if bigyend is None else dict(bigyend)
+        bigq = None if bigq is None else dict(bigq)
+        name_bigX = None if name_bigX is None else {r: list(name_bigX[r]) for r in name_bigX}
+        name_bigyend = None if name_bigyend is None else dict(name_bigyend)
+        name_bigq = None if name_bigq is None else dict(name_bigq)
+
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
         
-- 
2.43.0


From 6f584668ad95577872ef8915d250ce0dc6111491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 06/23] fix: endogenous-regimes models report why Skater_reg
 failed

The error was printed and then hidden behind an UnboundLocalError.
---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index e30db52..c427084 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1073,7 +1073,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9d7a1af..02def53 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1092,7 +1092,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 39ab1a9..ad2cad4 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1344,7 +1344,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-- 
2.43.0


From b99ce203f4b70e8c40500e5f101f14ca1acf5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 07/23] fix: concurrent first reads of lazy attributes no
 longer replace each other's cache

---
 spreg/twosls.py |  4 ++--
 spreg/utils.py  | 24 ++++++++++++------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/spreg/twosls.py b/spreg/twosls.py
index 3f8b29b..f21aafc 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -211,7 +211,7 @@ class BaseTSLS(RegressionPropsY, RegressionPropsVM):
         try:
             return self._cache["vm"]
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["vm"] = np.dot(self.sig2, self.varb)
         except KeyError:
             self._cache["vm"] = np.dot(self.sig2, self.varb)
@@ -222,7 +222,7 @@ class BaseTSLS(RegressionPropsY, RegressionPropsVM):
         try:
             self._cache["vm"] = val
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["vm"] = val
         except KeyError:
             self._cache["vm"] = val
diff --git a/spreg/utils.py b/spreg/utils.py
index 2e1e3db..232fc19 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -44,7 +44,7 @@ class RegressionPropsY(object):
         try:
             return self._cache["mean_y"]
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["mean_y"] = np.mean(self.y)
         except KeyError:
             self._cache["mean_y"] = np.mean(self.y)
@@ -55,7 +55,7 @@ class RegressionPropsY(object):
         try:
             self._cache["mean_y"] = val
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["mean_y"] = val
         except KeyError:
             self._cache["mean_y"] = val
@@ -65,7 +65,7 @@ class RegressionPropsY(object):
         try:
             return self._cache["std_y"]
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["std_y"] = np.std(self.y, ddof=1)
         except KeyError:
             self._cache["std_y"] = np.std(self.y, ddof=1)
@@ -76,7 +76,7 @@ class RegressionPropsY(object):
         try:
             self._cache["std_y"] = val
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["std_y"] = val
         except KeyError:
             self._cache["std_y"] = val
@@ -110,7 +110,7 @@ class RegressionPropsVM(object):
         try:
             return self._cache["utu"]
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["utu"] = np.sum(self.u ** 2)
         except KeyError:
             self._cache["utu"] = np.sum(self.u ** 2)
@@ -121,7 +121,7 @@ class RegressionPropsVM(object):
         try:
             self._cache["utu"] = val
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["utu"] = val
         except KeyError:
             self._cache["utu"] = val
@@ -131,7 +131,7 @@ class RegressionPropsVM(object):
         try:
             return self._cache["sig2n"]
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["sig2n"] = self.utu / self.n
         except KeyError:
             self._cache["sig2n"] = self.utu / self.n
@@ -142,7 +142,7 @@ class RegressionPropsVM(object):
         try:
             self._cache["sig2n"] = val
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["sig2n"] = val
         except KeyError:
             self._cache["sig2n"] = val
@@ -152,7 +152,7 @@ class RegressionPropsVM(object):
         try:
             return self._cache["sig2n_k"]
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["sig2n_k"] = self.utu / (self.n - self.k)
         except KeyError:
             self._cache["sig2n_k"] = self.utu / (self.n - self.k)
@@ -163,7 +163,7 @@ class RegressionPropsVM(object):
         try:
             self._cache["sig2n_k"] = val
         except AttributeError:
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
             self._cache["sig2n_k"] = val
         except KeyError:
             self._cache["sig2n_k"] = val
@@ -175,14 +175,14 @@ class RegressionPropsVM(object):
         except (AttributeError, KeyError):
             # Either _cache doesn't exist or doesn't have 'vm'
             if not hasattr(self, '_cache'):
-                self._cache = {}
+                vars(self).setdefault("_cache", {})
             self._cache["vm"] = np.dot(self.sig2, self.xtxi)
             return self._cache["vm"]
 
     @vm.setter
     def vm(self, val):
         if not hasattr(self, '_cache'):
-            self._cache = {}
+            vars(self).setdefault("_cache", {})
         self._cache["vm"] = val
 
 
-- 
2.43.0


From 0823d71f07e54b6627f17e768acd3c9c96795f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 08/23] fix: spatial diagnostics of separate-regimes models no
 longer drop the variance matrix

---
 spreg/ols_regimes.py       | 1 -
 spreg/twosls_regimes.py    | 1 -
 spreg/twosls_sp_regimes.py | 1 -
 3 files changed, 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index c427084..130c689 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -678,7 +678,6 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
 
     def _get_spat_diag_props(self, x, sig2n_k):
         self.k = self.kr
-        self._cache = {}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 02def53..7ea03fb 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -625,7 +625,6 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-        self._cache = {}
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
         self.z = sphstack(
             x,
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index ad2cad4..91b133c 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -899,7 +899,6 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             counter += 1
 
     def _get_spat_diag_props(self, y, x, w, yend, q, w_lags, lag_q):
-        self._cache = {}
         yend, q = set_endog(y, x[:, 1:], w, yend, q, w_lags, lag_q)
         # x = USER.check_constant(x)
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
-- 
2.43.0


From 21ed53c18b4d1683ffa53a511d1f52b90e31d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 09/23] fix: list the constant regressors of a regime in
 variable order, not set order

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 74300b8..358a09e 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -677,7 +677,7 @@ def check_const_regi(reg, x, name_x, regi_ids):
         const_x = [keep_x[i] for i in np.nonzero(diffs == 0)[0]]
         keep_x = [element for element in keep_x if element not in const_x]
         x = np.delete(x, np.nonzero(diffs == 0), 1)
-    rem_x = list(set(name_x) - set(keep_x))
+    rem_x = [element for element in name_x if element not in keep_x]
     if len(rem_x) > 0:
         set_warn(
             reg,
-- 
2.43.0


From d4560d7cdc8e4c3977c4e47f04097479668e481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 10/23] fix: fits no longer print stray values and warnings to
 standard output

---
 spreg/output.py      | 1 -
 spreg/panel.py       | 3 ++-
 spreg/sp_panels.py   | 5 ++---
 spreg/user_output.py | 3 ---
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index b2920d8..845eab8 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -92,7 +92,6 @@ def out_part_top(strSummary, reg, m):
     else:
         _reg.z_stat = diagnostics.t_stat(_reg, z_stat=True)
         if _reg.__class__.__name__ not in ('NSLX','PSM','LagPSM') and not _reg.__class__.__name__.endswith('Probit'):
-            print(_reg.__class__.__name__)
             _reg.pr2 = diagnostics_tsls.pr2_aspatial(_reg)
             strSummary += "%-20s:%12.4f\n" % ("Pseudo R-squared", _reg.pr2)
         _reg.__summary["summary_zt"] = "z"
diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..32cd84d 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1,3 +1,4 @@
+import warnings
 import numpy as np
 import numpy.linalg as la
 import pandas as pd
@@ -896,7 +897,7 @@ class BaseML_ErrorPooled(BaseML_Error):
         w_full_wsp = WSP(W_full_sparse)
         
         if method != 'LU':
-            print("Warning: Pooled ML estimation enforces method='LU' for efficiency.")
+            warnings.warn("Pooled ML estimation enforces method='LU' for efficiency.")
             method = 'LU'
             
         BaseML_Error.__init__(self, y, x, w_full_wsp, method=method, epsilon=epsilon)
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 7a27a5e..337f4ea 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -23,7 +23,7 @@ from . import user_output as USER
 from . import summary_output as SUMMARY
 from . import regimes as REGI
 
-# import warnings
+import warnings
 
 
 __all__ = ["GM_KKP"]
@@ -526,8 +526,7 @@ def _get_panel_data(y, x, w, name_y, name_x):
             "Assuming time data is in wide format, i.e. y[0] refers to T0, y[1], refers to T1, etc."
             "\n Similarly, assuming x[0:k] refers to independent variables for T0, x[k+1:2k] refers to T1, etc."
         )
-        print("Warning: " + message)
-        # warnings.warn(message)
+        warnings.warn(message)
 
         if y.shape[1] != T:
             raise Exception(
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 723cce7..5f12caa 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -498,7 +498,6 @@ def check_y(y, n, name_y=None):
                     
         y = y.to_numpy()
     if not isinstance(y, np.ndarray):
-        print(y.__class__.__name__)
         raise Exception("y must be a numpy array or a pandas Series")
     shape = y.shape
     if len(shape) > 2:
@@ -672,12 +671,10 @@ def check_robust(robust, wk):
             diag = wk.sparse.diagonal()
             # check to make sure all entries equal 1
             if diag.min() < 1.0:
-                print(diag.min())
                 raise Exception(
                     "All entries on diagonal of kernel weights matrix must equal 1."
                 )
             if diag.max() > 1.0:
-                print(diag.max())
                 raise Exception(
                     "All entries on diagonal of kernel weights matrix must equal 1."
                 )
-- 
2.43.0


From e491527ea970a4733cf9c8bffa34876f7b31e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 11/23] fix: specification searches and regime weights print
 only when asked to

---
 spreg/regimes.py  |  2 +-
 spreg/spsearch.py | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 358a09e..ec9367f 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -601,7 +601,7 @@ def w_regimes_union(w, w_regi_i, regimes_set):
                 w_regi, w_regi_i[regimes_set[i]], silence_warnings=True
             )
     w_regi = weights.util.remap_ids(
-        w_regi, dict((i, i) for i in w_regi.id_order), w.id_order
+        w_regi, dict((i, i) for i in w_regi.id_order), w.id_order, silence_warnings=True
     )
     w_regi.transform = w.get_transform()
     return w_regi
diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index c84ce34..1ba7e6c 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -898,7 +898,8 @@ def gets_gns(
             raise
         except Exception:
             result = "Exception: GNS parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
         name_y = model_gns.name_y
@@ -924,7 +925,8 @@ def gets_gns(
             raise
         except Exception:
             result = "Exception: GNS parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
     pstats = np.array(model_gns.z_stat)[1 + k :, 1]  # t statistics p-values
@@ -963,7 +965,8 @@ def gets_gns(
                 raise
             except Exception:
                 result = "Exception: SDM parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
 
             pstats = np.array(model_sdm.z_stat)[1 + k :, 1]
@@ -1011,7 +1014,8 @@ def gets_gns(
                 raise
             except Exception:
                 result = "Exception: SLX Error parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
 
             pstats = np.array(model_slxerr.z_stat)[1 + k :, 1]
@@ -1054,7 +1058,8 @@ def gets_gns(
                 raise
             except Exception:
                 result = "Exception: SARSAR parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
 
             pstats = np.array(model_sarsar.z_stat)[1 + k :, 1]
@@ -1247,7 +1252,8 @@ def gets_sdm(
             raise
         except Exception:
             result = "Exception: SDM parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
         name_y = model_sdm.name_y
@@ -1272,7 +1278,8 @@ def gets_sdm(
             raise
         except Exception:
             result = "Exception: SDM parameters out of bounds"
-            print(result)
+            if mprint:
+                print(result)
             return (result, finreg)
 
     pstats = np.array(model_sdm.z_stat)[1 + k :, 1]  # spatial parameters
@@ -1360,7 +1367,8 @@ def gets_sdm(
                 raise
             except Exception:
                 result = "Exception: LAG parameters out of bounds"
-                print(result)
+                if mprint:
+                    print(result)
                 return (result, finreg)
             # print(model_lag.summary)
             ak_lag = AKtest(model_lag, w, case="gen")
-- 
2.43.0


From c0efe1c4513076a60be88441a21c51acfbd29817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 12/23] fix: iterated error models with regimes filter with the
 latest spatial parameter

---
 spreg/error_sp_het_regimes.py |  2 +-
 spreg/error_sp_hom_regimes.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 1ad2efb..448534b 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1091,7 +1091,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 moments_i = UTILS._moments2eqs(wA1, w.sparse, self.u)
                 lambda3 = UTILS.optim_moments(moments_i, vc2, hard_bound=hard_bound)
                 eps = abs(lambda3 - lambda_old)
-                lambda_old = lambda3
+                lambda1 = lambda_old = lambda3
                 self.iteration += 1
 
             self.iter_stop = UTILS.iter_msg(self.iteration, max_iter)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 18a92c8..d8090e9 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -428,8 +428,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. SWLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
-                ys = get_spFilter(w, lambda1, y)
+                xs = get_spFilter(w, lambda_old, x_constant1)
+                ys = get_spFilter(w, lambda_old, y)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
@@ -1065,12 +1065,12 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
+                xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
-                ys = get_spFilter(w, lambda1, y)
-                yend_s = get_spFilter(w, lambda1, yend)
+                ys = get_spFilter(w, lambda_old, y)
+                yend_s = get_spFilter(w, lambda_old, yend)
                 yend_s = REGI.Regimes_Frame.__init__(
                     self,
                     yend_s,
-- 
2.43.0


From 7f73cf375b3e0a22804b988afe2c78f9dadd3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 13/23] fix: iterated SUR stops after maxiter iterations, not
 one later

---
 spreg/sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index c30921f..f868716 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -136,7 +136,7 @@ class BaseSUR:
         # self.niter = 0
         if iter:  # iterated FGLS aka ML
             n_iter = 0
-            while np.abs(det1 - det0) > epsilon and n_iter <= maxiter:
+            while np.abs(det1 - det0) > epsilon and n_iter < maxiter:
                 n_iter += 1
                 det0 = det1
                 self.bSUR, self.varb, self.sig = sur_est(
-- 
2.43.0


From f64e888739d87288c1f41f22e9ae9a4f9b448897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 14/23] fix: SURerrorML stops after 100 iterations when it does
 not converge

---
 spreg/sur_error.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index ad96aad..ea75480 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -6,6 +6,8 @@ __author__ = "Luc Anselin lanselin@gmail.com,    \
              Pedro V. Amaral pedrovma@gmail.com"
 
 
+import warnings
+
 import numpy as np
 import numpy.linalg as la
 from scipy import stats
@@ -541,7 +543,9 @@ class BaseSURerrorML:
 
         # iteration
         lambdabounds = [(-1.0, +1.0) for i in range(self.n_eq)]
-        while abs(fun0 - fun1) > epsilon:
+        n_iter, itermax = 0, 100
+        while abs(fun0 - fun1) > epsilon and n_iter < itermax:
+            n_iter += 1
             fun0 = fun1
             sply = filter_dict(lam, self.bigy, self.bigylag)
             splX = filter_dict(lam, self.bigX, self.bigXlag)
@@ -560,6 +564,8 @@ class BaseSURerrorML:
             lam = res.x
             lam.resize((self.n_eq, 1))
             fun1 = res.fun
+        if abs(fun0 - fun1) > epsilon:
+            warnings.warn("Maximum number of iterations reached without convergence.")
         self.lamsur = lam
         self.bSUR = b1
         self.varb = varb1
-- 
2.43.0


From 84a8fb5bbf9e5ea42cc959e74dec0225d8c965c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 15/23] fix: the power series for spatial multipliers no longer
 stops at a zero or negative trace

---
 spreg/sputils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..65fd6cc 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -317,10 +317,12 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         ww = ws3
         pow = 1
         adi = 1.0
-        adidiff = 100.00
+        adidiff = adiprev = 100.00
 
-        while adidiff > mtol:
+        # odd powers can have zero or negative traces, so two small terms in a row are needed
+        while abs(adidiff) > mtol or abs(adiprev) > mtol:
             pow = pow + 1
+            adiprev = adidiff
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
             rhop = rhop * rho
-- 
2.43.0


From 0829dc7e8b5cd53a628e5b93dcc4a8c9cb60ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 16/23] fix: Probit passes maxiter on to the bfgs and ncg
 optimisers

---
 spreg/probit.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 7b786d5..bcb13c4 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -154,12 +154,20 @@ class BaseProbit():
         else:
             fgrad = lambda par: -self.gradient(par)
             if self.optim == "bfgs":
-                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
+                par_hat = op.fmin_bfgs(
+                    flogl, start, fgrad, maxiter=self.maxiter, full_output=1, disp=0
+                )
                 warn = par_hat[6]
             if self.optim == "ncg":
                 fhess = lambda par: -self.hessian(par)
                 par_hat = op.fmin_ncg(
-                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
+                    flogl,
+                    start,
+                    fgrad,
+                    fhess=fhess,
+                    maxiter=self.maxiter,
+                    full_output=1,
+                    disp=0,
                 )
                 warn = par_hat[5]
         if warn > 0:
-- 
2.43.0


From ee65f085a64666e84546a2c2dc9a5856e052f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 17/23] fix: an undefined spatial parameter is not reported as
 convergence

---
 spreg/error_sp_het.py         | 4 ++--
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom.py         | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..ec78d46 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -133,7 +133,7 @@ class BaseGM_Error_Het(RegressionPropsY):
         lambda_old = lambda2
 
         self.iteration, eps = 0, 1
-        while self.iteration < max_iter and eps > epsilon:
+        while self.iteration < max_iter and not eps <= epsilon:
             # 2a. reg -->\hat{betas}
             xs = UTILS.get_spFilter(w, lambda_old, self.x)
             ys = UTILS.get_spFilter(w, lambda_old, self.y)
@@ -584,7 +584,7 @@ class BaseGM_Endog_Error_Het(RegressionPropsY):
         lambda_old = lambda2
 
         self.iteration, eps = 0, 1
-        while self.iteration < max_iter and eps > epsilon:
+        while self.iteration < max_iter and not eps <= epsilon:
             # 2a. reg -->\hat{betas}
             xs = UTILS.get_spFilter(w, lambda_old, self.x)
             ys = UTILS.get_spFilter(w, lambda_old, self.y)
diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 448534b..80c97fe 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -413,7 +413,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             lambda_old = lambda2
 
             self.iteration, eps = 0, 1
-            while self.iteration < max_iter and eps > epsilon:
+            while self.iteration < max_iter and not eps <= epsilon:
                 # 2a. reg -->\hat{betas}
                 xs = UTILS.get_spFilter(w, lambda_old, x_constant1)
                 ys = UTILS.get_spFilter(w, lambda_old, y)
@@ -1058,7 +1058,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             lambda_old = lambda2
 
             self.iteration, eps = 0, 1
-            while self.iteration < max_iter and eps > epsilon:
+            while self.iteration < max_iter and not eps <= epsilon:
                 # 2a. reg -->\hat{betas}
                 xs = UTILS.get_spFilter(w, lambda1, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..a71f911 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -141,7 +141,7 @@ class BaseGM_Error_Hom(RegressionPropsY):
         lambda_old = lambda1
 
         self.iteration, eps = 0, 1
-        while self.iteration < max_iter and eps > epsilon:
+        while self.iteration < max_iter and not eps <= epsilon:
             # 2a. SWLS --> \hat{\delta}
             x_s = get_spFilter(w, lambda_old, self.x)
             y_s = get_spFilter(w, lambda_old, self.y)
@@ -572,7 +572,7 @@ class BaseGM_Endog_Error_Hom(RegressionPropsY):
         lambda_old = lambda1
 
         self.iteration, eps = 0, 1
-        while self.iteration < max_iter and eps > epsilon:
+        while self.iteration < max_iter and not eps <= epsilon:
             # 2a. GS2SLS --> \hat{\delta}
             x_s = get_spFilter(w, lambda_old, self.x)
             y_s = get_spFilter(w, lambda_old, self.y)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index d8090e9..4a5a03c 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -426,7 +426,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             lambda_old = lambda1
 
             self.iteration, eps = 0, 1
-            while self.iteration < max_iter and eps > epsilon:
+            while self.iteration < max_iter and not eps <= epsilon:
                 # 2a. SWLS --> \hat{\delta}
                 xs = get_spFilter(w, lambda_old, x_constant1)
                 ys = get_spFilter(w, lambda_old, y)
@@ -1063,7 +1063,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             lambda_old = lambda1
 
             self.iteration, eps = 0, 1
-            while self.iteration < max_iter and eps > epsilon:
+            while self.iteration < max_iter and not eps <= epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
                 xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
-- 
2.43.0


From 763ce73a8ef5a765cbc44b7e01384c0a15b60050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 18/23] fix: sur_dictxy and sur_dictZ read long-format tables
 again (dict.has_key is gone)

---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 7277bfb..4e6dfed 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From 09c512c4533fa177a7f4b43f69c5449389c315f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 19/23] fix: sur_dictxy and sur_dictZ reject columns of unequal
 length and unbalanced long tables

---
 spreg/sur_utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 4e6dfed..e89883c 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -102,7 +102,8 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         tt2 = list(tt1)
         tt2.sort()
         tt3 = [str(a) for a in tt2]  # in case of string type time_id
-        n = bign / n_eq
+        if ss.shape[0] != bign or tt.shape[0] != bign:
+            raise Exception("Error: space id, time id and y differ in length")
         try:
             longx = np.array([db[name] for name in x_vars[0]]).T
         except (AttributeError, IndexError, KeyError, TypeError, ValueError):
@@ -128,6 +129,10 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
             if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
+        if n_eq * len(skeys) != bign:
+            raise Exception(
+                "Error: each space id must have exactly one row for each time id"
+            )
 
         bigy = {}
         bigX = {}
@@ -185,6 +190,8 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
                 litz = np.array([db[name] for name in z_vars_copy]).T
             except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 litz = np.array([db.by_col(name) for name in z_vars_copy]).T
+            if r > 0 and litz.shape[0] != bigZ[0].shape[0]:
+                raise Exception("Error: variables differ in length across equations")
             if const:
                 ic = c + "_" + str(r + 1)
                 z_vars_copy.insert(0, ic)
@@ -210,11 +217,12 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         tt2 = list(tt1)
         tt2.sort()
         tt3 = [str(int(a)) for a in tt2]
-        n = bign / n_eq
         try:
             longz = np.array([db[name] for name in z_vars[0]]).T
         except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             longz = np.array([db.by_col(name) for name in z_vars[0]]).T
+        if ss.shape[0] != bign or longz.shape[0] != bign:
+            raise Exception("Error: space id, time id and variables differ in length")
         zvars = z_vars[0][:].copy()
         if const:
             longz = np.hstack((np.ones((bign, 1)), longz))
@@ -231,6 +239,10 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
             if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
+        if n_eq * len(skeys) != bign:
+            raise Exception(
+                "Error: each space id must have exactly one row for each time id"
+            )
 
         bigZ = {}
         bigZ_names = {}
-- 
2.43.0


From 9f81c1cd916087d6a053f0c37006e774f964b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 20/23] fix: wide panels with a regressor constant in one
 period, lost columns or repeated rows are no longer misaligned

---
 spreg/panel_fe.py    | 12 ++++++------
 spreg/panel_utils.py | 17 ++++++++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 703d351..06b97d9 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -333,10 +333,10 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, just_rem=True)
-        set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigy, bigx, name_y, name_x, T, warn_panel = check_panel(y, x, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
+        set_warn(self, warn_panel)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_FE_Lag.__init__(self, bigy, bigx, w, epsilon=epsilon)
@@ -623,10 +623,10 @@ class Panel_FE_Error(BasePanel_FE_Error):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, True)
-        set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigy, bigx, name_y, name_x, T, warn_panel = check_panel(y, x, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, True)
         set_warn(self, warn)
+        set_warn(self, warn_panel)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_FE_Error.__init__(self, bigy, bigx, w, epsilon=epsilon)
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e4bbb47..c16d647 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -21,10 +21,9 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     """
     warn = []
     n_rows = USER.check_arrays(y, x)
-    x_constant, name_x, warn_add = USER.check_constant(x, name_x, just_rem=True)
-    warn.append(warn_add)
-    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x_constant, w, name_y, name_x)
-    warn.append(warn_add)
+    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
+    bigx, name_x, warn_const = USER.check_constant(bigx, name_x, just_rem=True)
+    warn.extend([warn_const, warn_add])
     if add_constant:
         bigx, name_x, warn_add = USER.check_constant(bigx, name_x)
         warn.append(warn_add)
@@ -72,8 +71,10 @@ def check_panel(y, x, w, name_y, name_x):
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
+                name_x = [x.name]
         x = x.to_numpy()
+    if x.ndim == 1:
+        x = x.reshape(-1, 1)
 
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
@@ -87,6 +88,12 @@ def check_panel(y, x, w, name_y, name_x):
             "to k2, etc."
         )
         N, T = y.shape[0], y.shape[1]
+        if N != w.n:
+            raise Exception("In wide format, y must have one row for each unit in w.")
+        if x.shape[1] % T != 0:
+            raise Exception(
+                "In wide format, x must have one column for each variable and period."
+            )
         k = x.shape[1] // T
         bigy = y.reshape((y.size, 1), order="F")
         bigx = x[:, 0:T].reshape((N * T, 1), order="F")
-- 
2.43.0


From 647bccf37a53df40cf492187317df49687aeeb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 21/23] fix: sur_dictZ rejects names that identify several
 columns

---
 spreg/sur_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index e89883c..a28326d 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -190,6 +190,8 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
                 litz = np.array([db[name] for name in z_vars_copy]).T
             except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 litz = np.array([db.by_col(name) for name in z_vars_copy]).T
+            if litz.ndim != 2:
+                raise Exception("Error: each name must identify a single column")
             if r > 0 and litz.shape[0] != bigZ[0].shape[0]:
                 raise Exception("Error: variables differ in length across equations")
             if const:
-- 
2.43.0


From 723c5ae5f03811498d0741e3e7f78adcc1af9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 22/23] fix: Skater_reg without scikit-learn rejects missing
 values as it does with it

---
 spreg/skater_reg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 5bdd105..9e6ff12 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -23,6 +23,8 @@ except ImportError:
         for a single input, or point-to-point euclidean distances
         for two inputs.
         """
+        if not np.isfinite(X).all():
+            raise ValueError("Input contains NaN or infinity.")
         if Y is None:
             return squareform(pdist(X))
         else:
-- 
2.43.0


From 2cf249bf336a1422e0b676e3795d8033f416f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 23/23] fix: the power series for spatial multipliers stops
 when it diverges

---
 spreg/sputils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 65fd6cc..174d0ce 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -328,6 +328,11 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
             rhop = rhop * rho
             adidiff = rhop * trw / n
             adi = adi + adidiff
+            if not np.isfinite(adidiff):
+                # the series diverges, e.g. for weights that are not row-standardized
+                multipliers["warn"] = "Power series for spatial impacts does not converge.\n"
+                adi = np.float64(np.nan)
+                break
         multipliers["adi"] = adi.item()
         multipliers["pow"] = pow
     else:
-- 
2.43.0

