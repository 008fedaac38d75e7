From cfdfd7f2ded73f4bb2746851fd92f1dfc9bc2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 1/3] fix: build the all-NaN placeholder as float so integer
 arrays do not turn it into garbage

---
 src/kalmankit/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..60113f3 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,8 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        # force a float dtype: an integer array cannot hold np.nan
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From fd90e9aa178acc27c645ad1493d5995286d0df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 2/3] fix: let KalmanFilter.predict take None for the control
 matrix or vector, as documented

---
 src/kalmankit/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..627fd86 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,8 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        no_control = Bk is None or uk is None
+        if no_control or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From b00953b8f4d0d94d718577e31373daa1aa01fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 3/3] fix: accept a plain float R in filter and smooth, as
 documented

---
 src/kalmankit/extended.py | 5 ++++-
 src/kalmankit/standard.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index f6a84ea..9920f37 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -283,8 +283,11 @@ class ExtendedKalmanFilter:
         predict_func = self.predict
         update_func = self.update
 
+        # a single float is the measurement noise of every time step
+        R = [self.R] * len(Z) if np.ndim(self.R) == 0 else self.R
+
         # feedback-control loop
-        _iterable = zip(U, Z, self.Q, self.R)
+        _iterable = zip(U, Z, self.Q, R)
         for k, (uk, zk, Qk, Rk) in enumerate(_iterable):
             # predict step, get prior estimates
             xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 627fd86..c2ae2d4 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -288,8 +288,11 @@ class KalmanFilter:
         predict_func = self.predict
         update_func = self.update
 
+        # a single float is the measurement noise of every time step
+        R = [self.R] * len(Z) if np.ndim(self.R) == 0 else self.R
+
         # feedback-control loop
-        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)
+        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, R)
         for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(_iterable):
             # predict step, get prior estimates
             xk_prior, Pk_prior = predict_func(
-- 
2.43.0

