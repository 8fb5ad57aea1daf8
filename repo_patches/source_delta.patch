From 9281b8728a8d12b45798968700bef11ab5e157b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 01/20] fix: contour_head raised NameError at dry locations
 (onekapy is not a module)

---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From 55a0a624fef52ccfaa9ee6a2a9c6f720c937e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 02/20] fix: oneka() rejected smooth=0, its own default (no
 smoothing)

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From 6e95de8fe75ce83b70ef15d121b43c7673ab0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 03/20] fix: oneka() returns the capture zone probability field
 it documents

---
 oneka/oneka.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..afbe923 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -316,6 +316,8 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From 1d87e4b71f0a2fe766250f32ad09a478db793f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 04/20] fix: oneka() accepted a zero standard deviation, which
 cannot be weighted

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index afbe923..e01f30e 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From 926cc56ad81f8892f479c3bdcda72d8a0ca5259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 05/20] fix: distributions given as lists passed validation but
 were used as constants

---
 oneka/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..e12e5a9 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,7 +294,7 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
@@ -330,7 +330,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From ed4b9bc86421990702fe13488142104e92297245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 06/20] fix: a degenerate triangular distribution is a
 constant, not a ValueError

---
 oneka/stochastic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index e12e5a9..e3eb15d 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -299,7 +299,10 @@ def generate_random_variate(arg):
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
     elif len(arg) == 3:
-        value = np.random.triangular(arg[0], arg[1], arg[2])
+        if arg[0] == arg[2]:
+            value = arg[0]              # np.random.triangular rejects an empty range.
+        else:
+            value = np.random.triangular(arg[0], arg[1], arg[2])
     else:
         raise DistributionError('<arg> must be a scalar, pair, or triple.')
 
-- 
2.43.0


From a805c95303b6a3a2c27fdf60aeb151d81c6379c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 07/20] fix: sign of the recharge logged for stochastic
 realizations

---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index e3eb15d..a23232e 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From 2b26484f43eeec3ac807fa802e127daa9965b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 08/20] fix: models shared their coefficient array with the
 caller and with each other

---
 oneka/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/model.py b/oneka/model.py
index ca37bc6..0ee9893 100644
--- a/oneka/model.py
+++ b/oneka/model.py
@@ -193,7 +193,7 @@ class Model:
 
     @coef.setter
     def coef(self, coef):
-        self._coef = np.reshape(coef, [6, ])
+        self._coef = np.array(np.reshape(coef, [6, ]))
 
     # ---------------------------------
     def __repr__(self):
-- 
2.43.0


From a66648d474485921b4208c927857bd4f7ced38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 09/20] fix: nodes within the umbra of a track but beyond its
 extent were lost

---
 oneka/probabilityfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..abe3ee8 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -332,7 +332,7 @@ class ProbabilityField:
         None.
         """
         # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        self.expand(min(x) - umbra, max(x) + umbra, min(y) - umbra, max(y) + umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From 6f731efe70a6eb76fa7a9560fa17adfdf2dc9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 10/20] fix: distancesquared divided by zero for a zero length
 segment

---
 oneka/probabilityfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index abe3ee8..ae26378 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,10 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        # The segment is a single point.
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From 27a66d66ad30b14ff4189d8c554581158954c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 11/20] fix: filter_obs averaged duplicate observations only
 when adjacent in the list

---
 oneka/utilities.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..dffd447 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -109,24 +109,27 @@ def filter_obs(observations, wellfield, buffer):
     # Assume that the duplicate errors are statistically independent.
     retained_obs = []
 
-    i = 0
-    while i < len(obs):
-        j = i+1
-        while (j < len(obs)) and (np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE):
-            j += 1
-
-        if j-i > 1:
+    while obs:
+        # The duplicates of an observation may be anywhere in the list.
+        same, rest = [obs[0]], []
+        for ob in obs[1:]:
+            if np.hypot(obs[0][0]-ob[0], obs[0][1]-ob[1]) < TOO_CLOSE:
+                same.append(ob)
+            else:
+                rest.append(ob)
+
+        if len(same) > 1:
             num = 0
             den = 0
-            for k in range(i, j):
-                num += obs[k][2]/obs[k][3]**2
-                den += 1/obs[k][3]**2
-                log.info('    duplicate observation: {0}'.format(obs[k]))
-            retained_obs.append((obs[i][0], obs[i][1], num/den, np.sqrt(1/den)))
+            for ob in same:
+                num += ob[2]/ob[3]**2
+                den += 1/ob[3]**2
+                log.info('    duplicate observation: {0}'.format(ob))
+            retained_obs.append((obs[0][0], obs[0][1], num/den, np.sqrt(1/den)))
             log.info('averaged observation created: {0}'.format(retained_obs[-1]))
         else:
-            retained_obs.append(obs[i])
-        i = j
+            retained_obs.append(obs[0])
+        obs = rest
 
     log.info('')
     log.info('active observations: {0}'.format(len(retained_obs)))
-- 
2.43.0


From 1e7e815e7069545117bf54ef4d3ff15f41d7bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 12/20] fix: a trace that met an undefined velocity never
 returned

---
 oneka/capturezone.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..4be55dc 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -238,6 +238,10 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
+            # An undefined velocity (e.g. at a well) would never be accepted.
+            if not (np.isfinite(est) and np.isfinite(ds)):
+                raise FloatingPointError('velocity is not finite')
+
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
-- 
2.43.0


From 0319c25607a778da781c354f7f37e67d79718f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 13/20] fix: an interrupt during a trace was swallowed and the
 trace silently cut short

---
 oneka/capturezone.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 4be55dc..03bcc55 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -250,8 +250,7 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
 
             dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
 
-    except:
+    except Exception:
         log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
 
-    finally:
-        return vertices
+    return vertices
-- 
2.43.0


From 7c2b7f0c7fc829593442109311ec6018ea7f59ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 14/20] fix: a run archived within the same second overwrote
 the previous archive

---
 oneka/archive.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index 3c8bbb5..f2bf095 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -78,7 +78,18 @@ def dump_oneka(
         'maxstep' : maxstep,
         'pfield' : pfield}
 
-    with bz2.BZ2File(filename, "w") as fp:
+    # Never overwrite the archive of another run.
+    stem = filename[:-len('.bz2')]
+    copy = 0
+    while True:
+        try:
+            fp = bz2.BZ2File(filename, "x")
+            break
+        except FileExistsError:
+            copy += 1
+            filename = '{0}-{1}.bz2'.format(stem, copy)
+
+    with fp:
         pickle.dump(oneka_dict, fp)
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From ae4c4ff64d7b03bc2c811f728db9baee8d020efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 15/20] fix: the log file of a run also received the messages
 of every later run

---
 runme.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/runme.py b/runme.py
index 94b4235..c14440a 100644
--- a/runme.py
+++ b/runme.py
@@ -56,20 +56,25 @@ def main(module_name):
 
     log = logging.getLogger('Oneka')
 
-    # Call the working function.
-    oneka(
-        m.PROJECTNAME, RUNTIME,
-        m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
-        m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
-        m.WELLS, m.OBSERVATIONS,
-        m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
-        m.CONFINED, m.TOL, m.MAXSTEP)
-
-    # Shutdown the run.
-    elapsedtime = time.time() - start_time
-    log.info('\n')
-    log.info('Total elapsed time = %.4f seconds' % elapsedtime)
-    logging.shutdown()
+    try:
+        # Call the working function.
+        oneka(
+            m.PROJECTNAME, RUNTIME,
+            m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
+            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
+            m.WELLS, m.OBSERVATIONS,
+            m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
+            m.CONFINED, m.TOL, m.MAXSTEP)
+
+        # Shutdown the run.
+        elapsedtime = time.time() - start_time
+        log.info('\n')
+        log.info('Total elapsed time = %.4f seconds' % elapsedtime)
+        logging.shutdown()
+    finally:
+        # The log file is for this run only.
+        logger.removeHandler(fh)
+        fh.close()
 
     print('\n\nTotal elapsed time = %.4f seconds' % elapsedtime)
 
-- 
2.43.0


From e325e862bc840c2ba4dd34130245a11de721f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 16/20] fix: the arbitrary first trial step of a trace could
 reach far off dry ground and end it

---
 oneka/capturezone.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 03bcc55..5161a31 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -218,6 +218,10 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
     try:
         k1 = feval(xy)
 
+        # The first trial step must not reach beyond the maximum space step.
+        if np.linalg.norm(dt*k1) > maxstep:
+            dt = 0.9 * maxstep/np.linalg.norm(k1) * np.sign(duration)
+
         while (abs(t) < abs(duration)):
             # Do not step past duration.
             if (abs(t + dt) > abs(duration)):
-- 
2.43.0


From a8f922a5d547fa3eb8ef1f479ae8d10587a01be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 17/20] fix: warnings of traces that end early never reached
 the log of the run

---
 oneka/capturezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 5161a31..88c7322 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -44,7 +44,7 @@ Version
 import logging
 import numpy as np
 
-log = logging.getLogger(__name__)
+log = logging.getLogger('Oneka')
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From db0c2d3620a7240a4aaa9668fdf4d399c4523436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 18/20] fix: runs started within the same second shared one log
 file

---
 runme.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runme.py b/runme.py
index c14440a..9da6541 100644
--- a/runme.py
+++ b/runme.py
@@ -48,6 +48,18 @@ def main(module_name):
 
     # Create file handler which logs all messages.
     fname='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.log'
+
+    # Never share the log file of another run.
+    stem = fname[:-len('.log')]
+    copy = 0
+    while True:
+        try:
+            open(fname, 'x').close()
+            break
+        except FileExistsError:
+            copy += 1
+            fname = '{0}-{1}.log'.format(stem, copy)
+
     fh = logging.FileHandler(filename=fname)
     fh.setLevel(logging.INFO)
 
-- 
2.43.0


From 84f392af83fe2506e2fb16795e79022242455cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 19/20] fix: the impact plot floored areas to whole acres, so
 zones below one acre vanished from its logarithmic axis

---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 578956a..37d30ca 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -386,7 +386,7 @@ def create_impact_plot(spacing, pf):
     j = min(n, np.argmax(pr==0)+1)
 
     plt.figure()
-    plt.semilogy(pr[i:j], area[i:j]//4046.86, '.')                  # 4046.86 m^2/acre
+    plt.semilogy(pr[i:j], area[i:j]/4046.86, '.')                  # 4046.86 m^2/acre
     plt.xticks(np.linspace(0,1,11))
 
     plt.xlabel('Pr(capture) exceeds')
-- 
2.43.0


From 488b92d18a590b9355d2bd0eb4b931f085a8eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 20/20] fix: the impact plot left out the curve of a field with
 no empty node

---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 37d30ca..c3f7d8a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -383,7 +383,7 @@ def create_impact_plot(spacing, pf):
     n = pr.shape[0]
     area = (np.arange(n)+1)*spacing**2
     i = max(0, np.argmax(pr<1)-1)
-    j = min(n, np.argmax(pr==0)+1)
+    j = min(n, np.count_nonzero(pr)+1)
 
     plt.figure()
     plt.semilogy(pr[i:j], area[i:j]/4046.86, '.')                  # 4046.86 m^2/acre
-- 
2.43.0

