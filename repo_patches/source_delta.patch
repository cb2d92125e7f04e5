From 7c052fd52b388d8a99a9022f9a6e97b5adaa45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 01/19] fix: order Adams-Bashforth and Adams-Moulton weights
 oldest first, as the step kernels read them

---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 nbkode/multistep/adams_moulton.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From d34aab567383a93dcc58aceeba5707dbbbea8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 02/19] fix: a multistep method is implicit when it uses the
 new derivative, not when it does not

---
 docs/tutorial.rst        | 2 +-
 nbkode/multistep/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/tutorial.rst b/docs/tutorial.rst
index e22ef4c..f9e4f6f 100644
--- a/docs/tutorial.rst
+++ b/docs/tutorial.rst
@@ -198,7 +198,7 @@ or those which are explicit:
 .. doctest::
 
    >>> nbkode.get_solvers(implicit=False)
-   (<AdamsMoulton1>, <AdamsMoulton2>, <AdamsMoulton3>, <AdamsMoulton4>, <AdamsMoulton5>, <BackwardEuler>, <BDF1>, <BDF2>, <BDF3>, <BDF4>, <BDF5>, <BDF6>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
+   (<AdamsBashforth1>, <AdamsBashforth2>, <AdamsBashforth3>, <AdamsBashforth4>, <AdamsBashforth5>, <ForwardEuler>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
 
 or those of a given group:
 
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4db6d1b 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 55104cda8796b34870257f71307bc9391a3dda52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 03/19] fix: start multistep methods at t0 + h, t0 + 2h, ...
 with a variable step starter

---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4db6d1b..46ff8e6 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -60,7 +60,7 @@ class Multistep(Solver, abstract=True):
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From b3690d6cd6835ad03acb689ef62b74976cafb4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 04/19] fix: do not compute multistep starting values beyond
 t_bound

---
 nbkode/multistep/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 46ff8e6..fb9a71e 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -51,6 +51,9 @@ class Multistep(Solver, abstract=True):
 
             first_stepper_cls = getattr(nbkode, first_stepper_cls)
 
+        # The starting values must not go beyond t_bound.
+        self._check_time(self.t + (self.ORDER - 1) * self.h)
+
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
             solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
-- 
2.43.0


From 5a4e7a2d8f18b0bcbad37e7a26bde3ee038b07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 05/19] fix: return and record copies of the state instead of
 views of the live history

---
 nbkode/core.py          | 5 +++--
 nbkode/event_handler.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..cf3bc89 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -246,7 +246,7 @@ class Solver(ABC, metaclass=MetaSolver):
         if n is None and upto_t is None:
             # No parameters, make one step.
             if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+                return np.atleast_1d(self.t), self.y.copy()
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -469,7 +469,8 @@ class Solver(ABC, metaclass=MetaSolver):
                 f"Time {t} to interpolate outside range ([{self.cache.ts[0]}, {self.cache.t}])"
             )
 
-        return self._interpolate(t, *self._step_args)
+        # The interpolators might return a view of the history.
+        return self._interpolate(t, *self._step_args).copy()
 
     @staticmethod
     @abstractmethod
diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..8dee399 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -158,7 +158,8 @@ class Event:
             # This is required to avoid duplicates
             if not (self.t and self.t[-1] == root):
                 self.t.append(root)
-                self.y.append(interpolate(root, rhs, cache, *args))
+                # The interpolators might return a view of the history.
+                self.y.append(interpolate(root, rhs, cache, *args).copy())
 
         self.last_t = t
         self.last_value = value
-- 
2.43.0


From 5ee49ac32fe42f9d703a9163aa65caa984fabc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 06/19] fix: step() and skip() raise RuntimeError at t_bound as
 their n=1 equivalents do

---
 nbkode/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index cf3bc89..44ae31a 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -247,6 +247,7 @@ class Solver(ABC, metaclass=MetaSolver):
             # No parameters, make one step.
             if self._step(self.t_bound, *self._step_args):
                 return np.atleast_1d(self.t), self.y.copy()
+            raise RuntimeError("Integrator reached t_bound.")
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,7 +297,8 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
+            if self._nskip(1, self.t_bound, self._step, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
-- 
2.43.0


From 51f1415bb0462df8f75385feb7681addc3fdfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 07/19] fix: warn instead of failing when events are requested
 for past times

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 44ae31a..eefba9f 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -440,7 +440,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From 6ad4e2d22bf83afaf587ef966f46f6cce0014894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 08/19] fix: return the times reached, in the requested order,
 when a run with unsorted times stops early

---
 nbkode/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index eefba9f..07a0611 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -445,7 +445,8 @@ class Solver(ABC, metaclass=MetaSolver):
         if is_t_sorted:
             return ts, ys, t_events, y_events
 
-        ondx = np.argsort(ndx)
+        # a run that stops early returns only the first time points.
+        ondx = np.argsort(ndx[: ts.size])
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From 7d37d386b82c14cd99b248d15b844201ded99c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 09/19] fix: stop at the earliest terminal event of a step and
 drop what comes after it

---
 nbkode/event_handler.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 8dee399..1b0f6f8 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -166,6 +166,12 @@ class Event:
 
         return trigger and self.is_terminal
 
+    def discard_after(self, t):
+        """Discard the occurrences recorded after time t."""
+        while self.t and self.t[-1] > t:
+            self.t.pop()
+            self.y.pop()
+
     @property
     def last_event(self):
         if self.t:
@@ -222,14 +228,20 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
+        min_t = np.inf
         for ndx, event in enumerate(self.events):
             if event.evaluate(interpolate, rhs, cache, *args):
                 terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if t < min_t:
+                    min_t = t
                     self.last_event = t, y
 
+        if terminate:
+            # The integration stops at min_t: nothing happens after it.
+            for event in self.events:
+                event.discard_after(min_t)
+
         return terminate
 
 
-- 
2.43.0


From dd312c998f4566204342fae8cdd7917e1bcc400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 10/19] fix: evaluate the time points preceding a terminal
 event found in the same step

---
 nbkode/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 07a0611..58c2f3f 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -643,9 +643,17 @@ class Solver(ABC, metaclass=MetaSolver):
                 if not step(t_bound, rhs, cache, *args):
                     return t_eval[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
+                    t_end, y_end = event_handler.last_event
+                    # Evaluate the remaining timepoints that precede termination.
+                    end = ndx
+                    while end < t_eval.size and t_eval[end] < t_end:
+                        y_out[end] = interpolate(t_eval[end], rhs, cache, *args)
+                        end += 1
+                    if end == t_eval.size:
+                        return t_eval, y_out, True
                     # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], True
+                    t_eval[end], y_out[end] = t_end, y_end
+                    return t_eval[: end + 1], y_out[: end + 1], True
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
         return t_eval, y_out, False
-- 
2.43.0


From b0936bbd0d96375e36c6e9d787429bc5c9a49519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 11/19] fix: locate events accurately whatever the scale of the
 event function

---
 nbkode/event_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 1b0f6f8..6add7a8 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -152,6 +152,9 @@ class Event:
                     event_at_sol,
                     self.last_t,
                     t,
+                    # Event functions have no natural scale: bisect the time
+                    # interval instead of stopping at a small function value.
+                    tol=0.0,
                     args=(self.func, interpolate, rhs, cache, *args),
                 )
 
-- 
2.43.0


From 7811f4a058c9c64b8c3fa58c772e8db7cf68cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 12/19] fix: respect max_step when choosing the step size

---
 nbkode/core.py             | 2 +-
 nbkode/runge_kutta/core.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 58c2f3f..b3ccfc2 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -715,7 +715,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
-        self.h = np.array(h, dtype=float)
+        self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
 def check(solver, implicit=None, fixed_step=None, runge_kutta=None, multistep=None):
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..7d0aecc 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -91,11 +91,12 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         Returns True if step is accepted.
         """
         if error_norm == 0:
-            h *= options.max_factor
+            h *= min(options.max_factor, options.max_step / h)
             return True  # step accepted
 
         factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
+        factor = min(options.max_factor, max(options.min_factor, factor))
+        h *= min(factor, options.max_step / h)
         return error_norm < 1
 
     @classmethod
-- 
2.43.0


From 654f9684a4a95ee8909e63644adebe08056054ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 13/19] fix: respect min_step: fail instead of retrying forever
 with vanishing steps

---
 nbkode/runge_kutta/core.py     | 2 ++
 nbkode/runge_kutta/explicit.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 7d0aecc..92866b6 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -119,6 +119,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, rhs(t, y))
                     break
+                if h < options.min_step or not cache.t + h > cache.t:
+                    raise RuntimeError("Required step size is too small.")
 
             return True
 
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..c62b0e9 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -95,6 +95,8 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
+                if h < options.min_step or not cache.t + h > cache.t:
+                    raise RuntimeError("Required step size is too small.")
 
         return _step
 
@@ -337,6 +339,8 @@ class DOP853(FSAL):
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
+                if h < options.min_step or not cache.t + h > cache.t:
+                    raise RuntimeError("Required step size is too small.")
 
         return _step
 
-- 
2.43.0


From 15bf3f5377e0456831e1a1485ccca0c844357283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 14/19] fix: DOP853 accepts steps without error instead of
 dividing by zero

---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index c62b0e9..9e1b912 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -335,7 +335,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = 0.0
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From 29485ca14f7816c87311d9f1e1766d420fb894ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 15/19] fix: use the validated rtol

---
 nbkode/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index b3ccfc2..54c71bd 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -703,7 +703,8 @@ class VariableStep:
         h = kwargs.pop("first_step", None)
         super().__init__(*args, **kwargs)
         validate_max_step(self.options.max_step)
-        validate_tol(self.options.rtol, self.options.atol, self.y.size)
+        rtol, _ = validate_tol(self.options.rtol, self.options.atol, self.y.size)
+        self.options.rtol = rtol
         if h is None:
             h = select_initial_step(
                 self.rhs,
-- 
2.43.0


From 214249626dbaafd889a352e3df1c49cafe075ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 16/19] fix: copy params so that changing them afterwards does
 not alter the equations

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 54c71bd..c4abeb3 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -116,7 +116,7 @@ class Solver(ABC, metaclass=MetaSolver):
         self.t_bound = t_bound
 
         if params is not None:
-            params = np.ascontiguousarray(params)
+            params = np.ascontiguousarray(params).copy()
 
         self.user_rhs = rhs
 
-- 
2.43.0


From e02cadd70b37175ccb87c1353fea08e8a5c25c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 17/19] fix: interpolate within the step that contains the
 time, not across the whole history

---
 nbkode/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index c4abeb3..3c89bc8 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -585,12 +585,15 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        # Use the step of the history that contains t_eval.
+        ndx = min(max(np.searchsorted(cache.ts, t_eval), 1), cache.ts.size - 1)
+
+        t0, y0 = cache.ts[ndx - 1], cache.ys[ndx - 1]
         if t_eval == t0:
             return y0
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        dt, dy = cache.ts[ndx] - t0, cache.ys[ndx] - y0
+        f0, f1 = cache.fs[ndx - 1], cache.fs[ndx]
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From b26762df4fcbcd3a50d862ad2813d413f476aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 18/19] fix: interpolate with the stages of the last accepted
 step also after a step that failed

---
 nbkode/runge_kutta/explicit.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 9e1b912..4fb2f46 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -88,11 +88,14 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # K keeps the stages of the last accepted step, used to interpolate.
+            K_new = np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
-                error = step_error(h, K, E)
+                t, y = fixed_step(rhs, cache, h, K_new)
+                error = step_error(h, K_new, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
                 if step_update(error_norm, h, options, error_exponent):
+                    K[:] = K_new
                     cache.push(t, y, K[-1])
                     break
                 if h < options.min_step or not cache.t + h > cache.t:
@@ -329,10 +332,12 @@ class DOP853(FSAL):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # K keeps the stages of the last accepted step, used to interpolate.
+            K_new = np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
-                err5 = step_error(h, K, E5)
-                err3 = step_error(h, K, E3)
+                t, y = fixed_step(rhs, cache, h, K_new)
+                err5 = step_error(h, K_new, E5)
+                err3 = step_error(h, K_new, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
                 if err5 == 0:
@@ -340,6 +345,7 @@ class DOP853(FSAL):
                 else:
                     error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
+                    K[:] = K_new
                     cache.push(t, y, K[-1])
                     break
                 if h < options.min_step or not cache.t + h > cache.t:
-- 
2.43.0


From 5fa67147b2710f2aba2483710f89a932c89eab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 19/19] fix: start-up of multistep solvers with a multistep
 first stepper skipped history points

---
 nbkode/multistep/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index fb9a71e..1dd9d84 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -55,14 +55,18 @@ class Multistep(Solver, abstract=True):
         self._check_time(self.t + (self.ORDER - 1) * self.h)
 
         if first_stepper_cls.FIXED_STEP:
-            # For fixed step solver we do N steps with the step size.
             solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
+        else:
+            solver = first_stepper_cls(self.rhs, self.t, self.y)
+
+        if first_stepper_cls.FIXED_STEP and solver.t == self.t:
+            # For fixed step solver we do N steps with the step size.
             for _ in range(self.ORDER - 1):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
-            solver = first_stepper_cls(self.rhs, self.t, self.y)
+            # The same for multistep solvers, as they have already done some steps.
             ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
-- 
2.43.0

