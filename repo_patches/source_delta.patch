From 9e0dfd2f565fed462f6de4b42620b08cc1b0e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:14 +0000
Subject: [PATCH 01/38] fix: pass the configuration file name, not the parser,
 to the evaluation stage

---
 tcrm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcrm.py b/tcrm.py
index 4c53c41..a0b7386 100755
--- a/tcrm.py
+++ b/tcrm.py
@@ -559,7 +559,7 @@ def main(configFile='main.ini'):
 
     comm.barrier()
     if config.getboolean('Actions', 'ExecuteEvaluate'):
-        doEvaluation(config)
+        doEvaluation(configFile)
 
     comm.barrier()
 
-- 
2.43.0


From fd16dc571b94e5a2984a89f1b7243ee2d2912364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:01 +0000
Subject: [PATCH 02/38] fix: convert to every unit that can be converted from

Converting to kmh, m/s, or from rad to m and from inHg or mmHg to Pascals
returned the value unchanged. Add the missing entries and apply the unit
aliases to the output units as well.
---
 Utilities/metutils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 0226102..396e409 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -394,6 +394,10 @@ def convert(value, inunits, outunits):
         inunits = 'kph'
     if inunits == "m/s":
         inunits = "mps"
+    if outunits == 'kmh':
+        outunits = 'kph'
+    if outunits == "m/s":
+        outunits = "mps"
 
     # Speeds:
     mps = {"kph":3.6, "kts":1.944, "mph":2.2369}
@@ -414,8 +418,9 @@ def convert(value, inunits, outunits):
     Pa = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pascals":1.0}
     inHg = {"kPa":3.386388667, "hPa":33.863886667, "Pa":3386.388666667,
-            "mmHg":25.4}
-    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394}
+            "mmHg":25.4, "Pascals":3386.388666667}
+    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394,
+            "Pascals":133.32239}
     pascals = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pa":1.0}
 
@@ -428,7 +433,8 @@ def convert(value, inunits, outunits):
          "rad":0.0000001570783}
     mi = {"km":1.60934, "m":1609.34, "deg":0.014482}
     nm = {"km":1.852, "m":1852, "deg":0.01666, "rad":math.pi/10800.}
-    rad = {"nm":10800./math.pi, "km":6366.248653, "deg":180./math.pi}
+    rad = {"nm":10800./math.pi, "km":6366.248653, "m":6366248.653,
+           "deg":180./math.pi}
 
     # Mixing ratio:
     gkg = {"kgkg":0.001}
-- 
2.43.0


From cdb8a83bce7f44b9e6dad5da41bb62b1dbaf96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:01 +0000
Subject: [PATCH 03/38] fix: do not change the caller's array when converting
 from Fahrenheit

---
 Utilities/metutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 396e409..6eabb14 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -470,7 +470,7 @@ def convert(value, inunits, outunits):
 
     if inunits in convert_pre:
         if outunits in convert_pre[inunits]:
-            value += convert_pre[inunits][outunits]
+            value = value + convert_pre[inunits][outunits]
 
     if inunits in convert:
         if outunits in convert[inunits]:
-- 
2.43.0


From d2453cf277a511f8893f0a76ef31f8365ca9b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:37 +0000
Subject: [PATCH 04/38] fix: keep bearing and components of the peak gust when
 combining tracks

The gust was updated before the components were compared with it, so they
were never replaced, and the bearing was not combined at all.
---
 wind/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..39c72d4 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -500,9 +500,11 @@ class WindfieldGenerator(object):
 
         for result in results:
             gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
-            gust = np.where(gust1 > gust, gust1, gust)
-            Vx = np.where(gust1 > gust, Vx1, Vx)
-            Vy = np.where(gust1 > gust, Vy1, Vy)
+            mask = gust1 > gust
+            gust = np.where(mask, gust1, gust)
+            bearing = np.where(mask, bearing1, bearing)
+            Vx = np.where(mask, Vx1, Vx)
+            Vy = np.where(mask, Vy1, Vy)
             P = np.where(P1 < P, P1, P)
 
         return (gust, bearing, Vx, Vy, P, lon, lat)
-- 
2.43.0


From a2bd51d0a2c9541bca75fa2e75d95a8cdb51d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:39 +0000
Subject: [PATCH 05/38] fix: leave out the rate of size change when the
 previous size is missing

---
 DataProcess/DataProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 9693a98..dc954c4 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -769,6 +769,7 @@ class DataProcess(object):
                           .format(pjoin(self.processPath, 'rmax_rate')))
         np.putmask(rmaxRate, indicator, sys.maxsize)
         np.putmask(rmaxRate, rmax >= sys.maxsize, sys.maxsize)
+        np.putmask(rmaxRate[1:], rmax[:-1] >= sys.maxsize, sys.maxsize)
         np.putmask(rmaxRate, (rmaxRate >= sys.maxsize) |
                    (rmaxRate <= -sys.maxsize), sys.maxsize)
         np.putmask(rmaxRate, np.isnan(rmaxRate), sys.maxsize)
-- 
2.43.0


From 9fcaef494d00785308bcfc94d52f5d7ddbc6abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:41 +0000
Subject: [PATCH 06/38] fix: use prescribed genesis values that are zero

---
 TrackGenerator/TrackGenerator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..b49722d 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -557,7 +557,7 @@ class TrackGenerator(object):
         j = 0
         while j < nTracks:
 
-            if not (initLon and initLat):
+            if initLon is None or initLat is None:
                 log.debug('Cyclone origin not given, sampling a' +
                           ' random one instead.')
                 genesisLon, genesisLat = \
@@ -580,7 +580,7 @@ class TrackGenerator(object):
 
             # Sample an initial bearing if none is provided
 
-            if not initBearing:
+            if initBearing is None:
                 ind = self.allCDFInitBearing[:, 0] == initCellNum
                 cdfInitBearing = self.allCDFInitBearing[ind, 1:3]
                 genesisBearing = ppf(uniform(), cdfInitBearing)
@@ -589,7 +589,7 @@ class TrackGenerator(object):
 
             # Sample an initial speed if none is provided
 
-            if not initSpeed:
+            if initSpeed is None:
                 ind = self.allCDFInitSpeed[:, 0] == initCellNum
                 cdfInitSpeed = self.allCDFInitSpeed[ind, 1:3]
                 genesisSpeed = ppf(uniform(), cdfInitSpeed)
@@ -599,7 +599,7 @@ class TrackGenerator(object):
 
             # Sample an initial day if none is provided
 
-            if not initDay:
+            if initDay is None:
                 ind = self.allCDFInitDay[:, 0] == initCellNum
                 cdfInitDay = self.allCDFInitDay[ind, 1:3]
                 genesisDay = ppf(uniform(), cdfInitDay)
@@ -624,7 +624,7 @@ class TrackGenerator(object):
 
             # Sample an initial pressure if none is provided
 
-            if not initPressure:
+            if initPressure is None:
                 # Sample subject to the constraint initPressure <
                 # initEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
@@ -638,7 +638,7 @@ class TrackGenerator(object):
 
             # Sample an initial maximum radius if none is provided
 
-            if not initRmax:
+            if initRmax is None:
                 if not self.allCDFInitSize:
                     cdfSize = self.cdfSize[:, [0, 2]]
                 else:
-- 
2.43.0


From 89c81b2ca5633d7158e15cc37349535c1cbd414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:11 +0000
Subject: [PATCH 07/38] fix: sample the environmental pressure of each track's
 own genesis

---
 TrackGenerator/TrackGenerator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index b49722d..71ddbb8 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -616,11 +616,13 @@ class TrackGenerator(object):
             # Sample an initial environment pressure if none is
             # provided - dependent on initial day of year:
 
-            if not initEnvPressure:
-                initEnvPressure = \
+            if initEnvPressure is None:
+                genesisEnvPressure = \
                     self.mslp.get_pressure(np.array([[genesisDay],
                                                      [genesisLat],
                                                      [genesisLon]]))
+            else:
+                genesisEnvPressure = initEnvPressure
 
             # Sample an initial pressure if none is provided
 
@@ -629,7 +631,7 @@ class TrackGenerator(object):
                 # initEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
                 cdfInitPressure = self.allCDFInitPressure[ind, 1:3]
-                ix = cdfInitPressure[:, 0].searchsorted(initEnvPressure)
+                ix = cdfInitPressure[:, 0].searchsorted(genesisEnvPressure)
                 upperProb = cdfInitPressure[ix - 1, 1]
                 genesisPressure = ppf(uniform(0.0, upperProb),
                                       cdfInitPressure)
@@ -645,7 +647,7 @@ class TrackGenerator(object):
                     ind = self.allCDFInitSize[:, 0] == initCellNum
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
-                dp = initEnvPressure - genesisPressure
+                dp = genesisEnvPressure - genesisPressure
                 self.rmwEps = np.random.normal(0, scale=0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
@@ -670,7 +672,7 @@ class TrackGenerator(object):
             log.debug('initBearing: %.2f initSpeed: %.2f' +
                       ' initEnvPressure: %.2f initPressure: %.2f' +
                       ' initRmax: %.2f',
-                      genesisBearing, genesisSpeed, initEnvPressure,
+                      genesisBearing, genesisSpeed, genesisEnvPressure,
                       genesisPressure, genesisRmax)
 
             xMin = self.gridLimit['xMin']
@@ -684,7 +686,7 @@ class TrackGenerator(object):
                           ' for this genesis point.')
                 continue
 
-            if (initEnvPressure - genesisPressure) < 2:
+            if (genesisEnvPressure - genesisPressure) < 2:
                 log.debug(("Track does not start with sufficient "
                            "pressure deficit"))
                 continue
@@ -694,7 +696,7 @@ class TrackGenerator(object):
 
             data = self._singleTrack(j, genesisLon, genesisLat,
                                      genesisSpeed, genesisBearing,
-                                     genesisPressure, initEnvPressure,
+                                     genesisPressure, genesisEnvPressure,
                                      genesisRmax, genesisTime)
 
             track_dtype = np.dtype({'names':TCRM_COLS, 'formats':TCRM_FMTS})
-- 
2.43.0


From e20f90ede359404971fed3775c4fe343cfffbce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:11 +0000
Subject: [PATCH 08/38] fix: draw the size variate from the generator of the
 simulation

---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 71ddbb8..c0b9b16 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -648,13 +648,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = genesisEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0., 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0., 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From 085dfaacf13764754adbbe946b6596934ede5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:11 +0000
Subject: [PATCH 09/38] fix: honour a season or track seed of zero

---
 TrackGenerator/TrackGenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index c0b9b16..6dfb6b5 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1808,7 +1808,7 @@ def run(configFile, callback=None):
     MPI = attemptParallel()
     comm = MPI.COMM_WORLD
 
-    if comm.size > 1 and (not seasonSeed or not trackSeed):
+    if comm.size > 1 and (seasonSeed is None or trackSeed is None):
         log.critical('TrackSeed and GenesisSeed are needed' +
                      ' for parallel runs!')
         sys.exit(1)
@@ -1828,7 +1828,7 @@ def run(configFile, callback=None):
     # Python `random` library does not provide a function to sample
     # from the Poisson distribution.
 
-    if seasonSeed:
+    if seasonSeed is not None:
         np.random.seed(seasonSeed)
 
     # Do the first stage of the simulation (i.e., sample the number of
@@ -1882,7 +1882,7 @@ def run(configFile, callback=None):
         if callback is not None:
             callback(sim.index, N)
 
-        if sim.seed:
+        if sim.seed is not None:
             global PRNG #TODO: explicitly-pass rather than mutate global state
             PRNG = random.Random(seed=sim.seed, stream=sim.index)
             log.debug('seed %i stream %i', sim.seed, sim.index)
-- 
2.43.0


From d0840852fa566d91f740b78536a49be7e74ece2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:11 +0000
Subject: [PATCH 10/38] fix: draw the size variate also when the initial size
 is given

---
 TrackGenerator/TrackGenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 6dfb6b5..ae5968e 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -661,6 +661,7 @@ class TrackGenerator(object):
 
             else:
                 genesisRmax = initRmax
+                self.rmwEps = normal(0., 0.335)
             # Do not generate tracks from this genesis point if we are
             # going to exit the domain on the first step
 
-- 
2.43.0


From 49a29df1ef2906de9a56614c2dc5bfc1194c3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:44 +0000
Subject: [PATCH 11/38] fix: let a run with a single simulation report its
 progress

The progress message divided by the index of the last simulation, which is
zero when NumSimulations is 1, so the run stopped with ZeroDivisionError
before generating any track.
---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index ae5968e..552aec4 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1878,7 +1878,7 @@ def run(configFile, callback=None):
 
     for sim in balanced(sims):
         log.debug('Simulating tropical cyclone tracks:' +
-                  ' %3.0f percent complete' % (sim.index / float(N)
+                  ' %3.0f percent complete' % (sim.index / float(max(N, 1))
                                                * 100.))
         if callback is not None:
             callback(sim.index, N)
-- 
2.43.0


From f4a9c13a29c79025ec56a0c593caafaf515a8044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:10 +0000
Subject: [PATCH 12/38] fix: let only the first process save the region
 frequency

---
 DataProcess/CalcFrequency.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataProcess/CalcFrequency.py b/DataProcess/CalcFrequency.py
index 053aab6..c47f5af 100644
--- a/DataProcess/CalcFrequency.py
+++ b/DataProcess/CalcFrequency.py
@@ -16,6 +16,7 @@ import numpy as np
 
 from Utilities.files import flLoadFile
 from Utilities.config import ConfigParser
+from Utilities.parallel import attemptParallel
 
 logger = logging.getLogger(__name__)
 
@@ -97,6 +98,8 @@ class CalcFrequency(object):
         data = np.array([np.arange(min_year, max_year + 1),
                          freq_count[min_year:max_year + 1]])
         header = "Year,count"
-        np.savetxt(fname, data.T, fmt="%d", delimiter=",", header=header)
+        # Every process calculates the frequency, only the first saves it
+        if attemptParallel().COMM_WORLD.rank == 0:
+            np.savetxt(fname, data.T, fmt="%d", delimiter=",", header=header)
 
         return freq
-- 
2.43.0


From f0c56ac873d712712bf763a92371aa621f378687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:15 +0000
Subject: [PATCH 13/38] fix: pass thetaMax to the wind field in degrees, as it
 expects

---
 wind/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 39c72d4..968feff 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -30,7 +30,6 @@ calling the :meth:`run` with the location of a *configFile*::
 
 import logging as log
 import itertools
-import math
 import os
 import sys
 from os.path import join as pjoin
@@ -111,7 +110,7 @@ class WindfieldAroundTrack(object):
         self.beta = beta
         self.beta1 = beta1
         self.beta2 = beta2
-        self.thetaMax = math.radians(thetaMax)
+        self.thetaMax = thetaMax
         self.margin = margin
         self.resolution = resolution
         self.gustFactor = gustFactor
@@ -936,8 +935,6 @@ def run(configFile, callback=None):
     if config.has_option('Input', 'Multipliers'):
         multipliers = config.get('Input', 'Multipliers')
 
-    thetaMax = math.radians(thetaMax)
-
     # Attempt to start the track generator in parallel
     global MPI
     MPI = attemptParallel()
-- 
2.43.0


From c910faf28bb62800b5326c02eefa37deb3e6d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:19 +0000
Subject: [PATCH 14/38] fix: give the default outer radii of the wind profiles
 in metres

---
 wind/windmodels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index c275928..4955dd0 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -600,7 +600,7 @@ class DoubleHollandWindProfile(WindProfileModel):
 
     """
 
-    def __init__(self, lat, lon, eP, cP, rMax, beta1, beta2, rMax2=150.,
+    def __init__(self, lat, lon, eP, cP, rMax, beta1, beta2, rMax2=150000.,
                  windSpeedModel=HollandWindSpeed):
         WindProfileModel.__init__(self, lat, lon, eP, cP, rMax,
                                   windSpeedModel)
@@ -839,7 +839,7 @@ class NewHollandWindProfile(WindProfileModel):
 
     """
 
-    def __init__(self, lat, lon, eP, cP, rMax, rGale=150.):
+    def __init__(self, lat, lon, eP, cP, rMax, rGale=150000.):
         WindProfileModel.__init__(self, lat, lon, eP, cP, rMax,
                                   windSpeedModel=HollandWindSpeed)
         self.rGale = rGale
-- 
2.43.0


From eb0e516a894ef78ea02974d119117e4928299bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:11 +0000
Subject: [PATCH 15/38] fix: regenerate a wind field whose pressure was not
 fully written

---
 wind/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 968feff..472f660 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -405,7 +405,8 @@ class WindfieldGenerator(object):
 
         try:
             with Dataset(filename, mode='r') as ncobj:
-                expected = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp')
+                # 'crs' is written last, after the values of the others
+                expected = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp', 'crs')
                 return all(name in ncobj.variables for name in expected)
         except Exception:
             log.warning("Existing gust file is incomplete or unreadable: %s",
-- 
2.43.0


From c168ccbc25892bdd1797a87c857b3b19ef922e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:25 +0000
Subject: [PATCH 16/38] fix: take only gust files as wind fields in the hazard
 and database stages

---
 database/__init__.py | 4 ++--
 hazard/__init__.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index c4eb941..bf88cea 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -274,7 +274,7 @@ class _HazardDatabase(sqlite3.Connection):
         log.info("Inserting records into tblEvents")
 
         fileList = os.listdir(self.windfieldPath)
-        fileList = [f for f in fileList if
+        fileList = [f for f in fileList if f.startswith('gust.') and
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
         pattern = re.compile(r'\d+')
@@ -361,7 +361,7 @@ class _HazardDatabase(sqlite3.Connection):
         """
         status = MPI.Status()
         fileList = os.listdir(self.windfieldPath)
-        fileList = [f for f in fileList if
+        fileList = [f for f in fileList if f.startswith('gust.') and
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
         work_tag = 0
diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..3ce77ed 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -52,7 +52,7 @@ def setDomain(inputPath):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath) if f.startswith('gust.')]
     inputFile = pjoin(inputPath, fileList[0])
     ncobj = nctools.ncLoadFile(inputFile)
     wf_lon = nctools.ncGetDims(ncobj, 'lon')
@@ -905,7 +905,7 @@ def loadFilesFromPath(inputPath, tilelimits):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath) if f.startswith('gust.')]
     files = [pjoin(inputPath, f) for f in fileList]
     files = [f for f in files if os.path.isfile(f)]
     log.debug("Loading data from %d files" % (len(files)))
-- 
2.43.0


From d02b20ce7759b8f51afdc928603c66802d4cce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:53 +0000
Subject: [PATCH 17/38] fix: record the time unit used for track files and
 leave the saved tracks unchanged

Saving replaced the times of the tracks in memory by numbers, and the file
always named hours since 1900 as its unit whatever unit was asked for.
---
 Utilities/track.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84b6b98..323b5af 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -324,13 +324,14 @@ def ncSaveTracks(trackfile, tracks,
                                      zlib=True, complevel=8, shuffle=True)
         tvar = tdata.createVariable('track', tdtype, ('time',),
                                     zlib=True, complevel=8, shuffle=True)
-        t.data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
-        times[:] = t.data['Datetime']
-        times.units = 'hours since 1900-01-01 00:00'
+        data = t.data.copy()
+        data['Datetime'] = date2num(data['Datetime'], timeunits, calendar)
+        times[:] = data['Datetime']
+        times.units = timeunits
         times.calendar = calendar
-        tvar[:] = t.data.astype(track_dtype)
+        tvar[:] = data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
-        tvar.time_units = 'hours since 1900-01-01 00:00'
+        tvar.time_units = timeunits
         tvar.calendar = calendar
         tvar.lon_units = 'degrees east'
         tvar.lat_units = 'degrees north'
-- 
2.43.0


From 9f1013d613cdd31a2388a167d3f06b8cdfadb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:42 +0000
Subject: [PATCH 18/38] fix: use a whole number of samples for the confidence
 limits

---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 3ce77ed..7561ca0 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -825,7 +825,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     upper = 100. - lower # 95th percentile default
 
     nrecords = Vr.shape[0] # number of years (since we have aggregated into 1/yr)
-    nsamples = nrecords / sample_size # number of iterations to perform
+    nsamples = nrecords // sample_size # number of iterations to perform
     
     # RpUpper/RpLower = years x lat x lon
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
-- 
2.43.0


From d8e196e57e77a7d7b847d63e071efd8477e63c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:43 +0000
Subject: [PATCH 19/38] fix: do not use the fits of the previous grid cell for
 confidence limits

---
 hazard/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 7561ca0..c61f7cf 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -831,14 +831,14 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
     RpLower = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
 
-    # w: years x number of iterations
-    w = np.zeros((len(years), nsamples), dtype='f')
     wUpper = np.zeros((len(years)), dtype='f')
     wLower = np.zeros((len(years)), dtype='f')
 
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
+                # w: years x number of iterations
+                w = nodata*np.ones((len(years), nsamples), dtype='f')
                 random.shuffle(Vr[:, i, j]) # shuffle the years
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
-- 
2.43.0


From 8f6a592be106206a7530cd70a11c6dbbf99a6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:14 +0000
Subject: [PATCH 20/38] fix: leave samples without a fit out of the confidence
 limits

---
 hazard/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index c61f7cf..4287f1f 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -853,8 +853,14 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
 
                 # Pull out the upper and lower percentiles from the random sample fits
                 for n in range(len(years)):
-                    wUpper[n] = percentile(w[n,:], upper)
-                    wLower[n] = percentile(w[n,:], lower)
+                    # Leave out the samples that could not be fitted
+                    valid = w[n, w[n, :] != nodata]
+                    if len(valid) > 0:
+                        wUpper[n] = percentile(valid, upper)
+                        wLower[n] = percentile(valid, lower)
+                    else:
+                        wUpper[n] = nodata
+                        wLower[n] = nodata
 
                 # Store upper and lower percentiles for each return period, for each grid cell
                 RpUpper[:, i, j] = wUpper
-- 
2.43.0


From 9660cf395e4df3e750465a8f5b23079555a7fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:13 +0000
Subject: [PATCH 21/38] fix: do not fit the power law to fewer than the minimum
 number of records

---
 hazard/evd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hazard/evd.py b/hazard/evd.py
index a9fefaa..971cd71 100644
--- a/hazard/evd.py
+++ b/hazard/evd.py
@@ -368,6 +368,9 @@ def powerfit(data, intervals, numsim, nodata=-9999., minrecords=50):
     loc, scale, shp = [nodata, nodata, nodata]
     w = nodata * np.ones(len(intervals)) # Create empty return period array
     
+    if len(data) < minrecords:
+        return w, loc, scale, shp
+
     npyr = 365.25
     nobs = npyr * numsim
     
-- 
2.43.0


From cdfb6b5465b967e8ef78287e9fae13bd154a9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:57 +0000
Subject: [PATCH 22/38] fix: mark grid cells without wind records as missing in
 the hazard results

---
 hazard/__init__.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 4287f1f..0aa1576 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -604,10 +604,10 @@ def calculateGEV(Vr, years, nodata, minRecords, yrsPerSim):
     """
 
     Vr.sort(axis=0) #axis 0 = year
-    Rp = np.zeros((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
-    loc = np.zeros(Vr.shape[1:], dtype='f') # loc = lat x lon
-    scale = np.zeros(Vr.shape[1:], dtype='f') # scale = lat x lon
-    shp = np.zeros(Vr.shape[1:], dtype='f') # shp = lat x lon
+    Rp = nodata*np.ones((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
+    loc = nodata*np.ones(Vr.shape[1:], dtype='f') # loc = lat x lon
+    scale = nodata*np.ones(Vr.shape[1:], dtype='f') # scale = lat x lon
+    shp = nodata*np.ones(Vr.shape[1:], dtype='f') # shp = lat x lon
 
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
@@ -655,10 +655,10 @@ def calculateEMP(Vr, years, numsim, nodata, minRecords, yrsPerSim):
     """
 
     Vr.sort(axis=0) #axis 0 = year
-    Rp = np.zeros((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
-    loc = np.zeros(Vr.shape[1:], dtype='f') # loc = lat x lon
-    scale = np.zeros(Vr.shape[1:], dtype='f') # scale = lat x lon
-    shp = np.zeros(Vr.shape[1:], dtype='f') # shp = lat x lon
+    Rp = nodata*np.ones((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
+    loc = nodata*np.ones(Vr.shape[1:], dtype='f') # loc = lat x lon
+    scale = nodata*np.ones(Vr.shape[1:], dtype='f') # scale = lat x lon
+    shp = nodata*np.ones(Vr.shape[1:], dtype='f') # shp = lat x lon
 
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
@@ -709,10 +709,10 @@ def calculateGPD(Vr, years, numsim, nodata, minRecords, yrsPerSim):
     """
 
     Vr.sort(axis=0) #axis 0 = year
-    Rp = np.zeros((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
-    loc = np.zeros(Vr.shape[1:], dtype='f') # loc = lat x lon
-    scale = np.zeros(Vr.shape[1:], dtype='f') # scale = lat x lon
-    shp = np.zeros(Vr.shape[1:], dtype='f') # shp = lat x lon
+    Rp = nodata*np.ones((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
+    loc = nodata*np.ones(Vr.shape[1:], dtype='f') # loc = lat x lon
+    scale = nodata*np.ones(Vr.shape[1:], dtype='f') # scale = lat x lon
+    shp = nodata*np.ones(Vr.shape[1:], dtype='f') # shp = lat x lon
 
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
@@ -766,10 +766,10 @@ def calculatePower(Vr, years, numsim, nodata, minRecords, yrsPerSim):
     """
 
     Vr.sort(axis=0) #axis 0 = year
-    Rp = np.zeros((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
-    loc = np.zeros(Vr.shape[1:], dtype='f') # loc = lat x lon
-    scale = np.zeros(Vr.shape[1:], dtype='f') # scale = lat x lon
-    shp = np.zeros(Vr.shape[1:], dtype='f') # shp = lat x lon
+    Rp = nodata*np.ones((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
+    loc = nodata*np.ones(Vr.shape[1:], dtype='f') # loc = lat x lon
+    scale = nodata*np.ones(Vr.shape[1:], dtype='f') # scale = lat x lon
+    shp = nodata*np.ones(Vr.shape[1:], dtype='f') # shp = lat x lon
 
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
-- 
2.43.0


From 8cc06db744a981469052cc99eabe750aec55af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:43 +0000
Subject: [PATCH 23/38] fix: join wind speeds to track passages on location as
 well as event

locationPassage returned one row for every location of an event, so the
wind speed shown for the selected location could be that of another one.
---
 database/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database/queries.py b/database/queries.py
index 6e93edb..a4b9cc1 100644
--- a/database/queries.py
+++ b/database/queries.py
@@ -123,6 +123,7 @@ def locationPassage(hazard_db, locId, distance=50):
              "INNER JOIN tblTracks t "
              "ON l.locId = t.locId "
              "JOIN tblWindSpeed w on w.eventId = t.eventId "
+             "AND w.locId = t.locId "
              "JOIN tblEvents e on e.eventId = t.eventId "
              "WHERE t.distClosest < ? and l.locId = ?")
     cur = hazard_db.execute(query, (distance, locId))
-- 
2.43.0


From 68987144150c2dea96562616b11163b8762fb2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:43 +0000
Subject: [PATCH 24/38] fix: store track file and version of an event as text

The values were encoded to bytes before they were inserted, so a query for
a track file name or a version never matched a record.
---
 database/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index bf88cea..3572ec1 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -111,11 +111,9 @@ def windfieldAttributes(ncobj):
     trackfiledate = getattr(ncobj, 'track_file_date')
     trackfiledate = datetime.strptime(trackfiledate, '%Y-%m-%d %H:%M:%S')
     tcrm_vers = getattr(ncobj, 'tcrm_version')
-    trackfile = unicodedata.normalize("NFKD",
-                                      trackfile).encode('utf-8', 'ignore')
+    trackfile = unicodedata.normalize("NFKD", trackfile)
     trackfile = os.path.basename(trackfile)
-    tcrm_vers = unicodedata.normalize("NFKD",
-                                      tcrm_vers).encode('utf-8', 'ignore')
+    tcrm_vers = unicodedata.normalize("NFKD", tcrm_vers)
     slpobj = ncobj.variables['slp']
     minslp = getattr(slpobj, 'actual_range')[0]
 
-- 
2.43.0


From 916c5b2c9559267cd12ae0c4ac27b9550a6f19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:14 +0000
Subject: [PATCH 25/38] fix: apply multipliers to wind bearings that round to
 360 degrees

Bearings are stored as single precision, so values just below 360 become
360. No direction sector included that value and the local wind speed of
such cells was zero.
---
 ProcessMultipliers/lowResProcessMultipliers.py | 2 ++
 ProcessMultipliers/processMultipliers.py       | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index de253b9..c31efef 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -167,6 +167,8 @@ class run():
 
             bearing = 2 * np.pi - (np.arctan2(-gust.va, -gust.ua) - np.pi / 2)
             bearing = (180. / np.pi) * np.mod(bearing, 2. * np.pi)
+            # Bearings just below 360 may be rounded to 360
+            bearing = bearing.where(bearing != 360., 0.)
 
             for i in list(indices.keys()):
                 idx = np.where((bearing >= indices[i]['min']) & (bearing < indices[i]['max']))
diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..6da051b 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -873,6 +873,8 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
 
     wind_data = wind_prj.ReadAsArray()
     bear_data = bear_prj.ReadAsArray()
+    # Bearings just below 360 are rounded to 360 in the raster
+    bear_data[bear_data == 360.] = 0.
     uu_data = uu_prj.ReadAsArray()
     vv_data = vv_prj.ReadAsArray()
     bearing = calculateBearing(uu_data, vv_data)
@@ -1093,6 +1095,8 @@ def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_b
         wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
     with threadLock_bear:
         bear_data = bear_prj.ReadAsArray(x_offset, y_offset, width, height)
+    # Bearings just below 360 are rounded to 360 in the raster
+    bear_data[bear_data == 360.] = 0.
     m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)
     local = np.zeros([height, width], dtype='float32')
     for i in list(indices.keys()):
-- 
2.43.0


From f5c128ac3d18f232f046e478ac9648179afc1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:01 +0000
Subject: [PATCH 26/38] fix: do not wait for a segment that another thread has
 taken

The worker threads tested whether the queue was empty and then waited for
a segment. When two threads passed the test with one segment left, one of
them waited forever and the run never ended.
---
 ProcessMultipliers/processMultipliers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 6da051b..e76f60a 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1061,8 +1061,13 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            # Another thread may have taken the last segment
+            break
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From 59bc1d49ea9798f9e0eb6e16c187f042d22fc306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:13 +0000
Subject: [PATCH 27/38] fix: hold a lock while the shared match raster is read

The two reprojections of the wind components run in separate threads and
read the same raster object, which GDAL does not allow.
---
 ProcessMultipliers/processMultipliers.py | 27 +++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index e76f60a..8ed6910 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -86,6 +86,7 @@ threadLock_gust = threading.Lock()
 threadLock_bear = threading.Lock()
 threadLock_m4 = threading.Lock()
 threadLock_out = threading.Lock()
+threadLock_match = threading.Lock()
 
 gdal.UseExceptions()
 
@@ -775,18 +776,20 @@ def reprojectDataset(src_file, match_filename, dst_filename,
         match_ds = gdal.Open(match_filename, gdal.GA_ReadOnly)
     else:
         match_ds = match_filename
-    matchBand = match_ds.GetRasterBand(1)
-    matchBand.SetNoDataValue(-9999)
-
-    if match_projection:
-        srs = osr.SpatialReference()
-        srs.ImportFromEPSG(match_projection)
-        match_proj = srs.ExportToWkt()
-    else:
-        match_proj = match_ds.GetProjection()
-    match_geotrans = match_ds.GetGeoTransform()
-    wide = match_ds.RasterXSize
-    high = match_ds.RasterYSize
+    # The match raster may be shared between threads
+    with threadLock_match:
+        matchBand = match_ds.GetRasterBand(1)
+        matchBand.SetNoDataValue(-9999)
+
+        if match_projection:
+            srs = osr.SpatialReference()
+            srs.ImportFromEPSG(match_projection)
+            match_proj = srs.ExportToWkt()
+        else:
+            match_proj = match_ds.GetProjection()
+        match_geotrans = match_ds.GetGeoTransform()
+        wide = match_ds.RasterXSize
+        high = match_ds.RasterYSize
 
     # Output / destination
     drv = gdal.GetDriverByName('GTiff')
-- 
2.43.0


From 744ceb7d829d1ab7d16f4746b859782efb4022e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:44:38 +0000
Subject: [PATCH 28/38] fix: give YearsPerSimulation a default value

The track generator assumes one year when the option is left out, but the
hazard stage and the evaluation stages read it without testing for it and
stopped with NoOptionError.
---
 Utilities/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utilities/config.py b/Utilities/config.py
index 10a65ee..b380989 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -171,6 +171,7 @@ minSamplesCell=100
 
 [TrackGenerator]
 NumSimulations=500
+YearsPerSimulation=1
 NumTimeSteps=360
 TimeStep=1.0
 Format=csv
-- 
2.43.0


From 8d4a8fdfffc623154a86129ba6e53c494e726ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:44:38 +0000
Subject: [PATCH 29/38] fix: give the options of the list of processed files
 default values

CreateDatabase is on by default, but the database stage read DatFile and
ExcludePastProcessed without testing for them and stopped with
NoSectionError. Without a DatFile no list of processed files is kept.
---
 Utilities/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Utilities/config.py b/Utilities/config.py
index b380989..14efc45 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -200,6 +200,10 @@ PlotSpeedUnits=mps
 ExtremeValueDistribution=GPD
 SmoothPlots=True
 
+[Process]
+ExcludePastProcessed=True
+DatFile=
+
 [RMW]
 GetRMWDistFromInputData=False
 
-- 
2.43.0


From a56db50e58235cdd2d2f69cbc67f7b8e081ea4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:44:38 +0000
Subject: [PATCH 30/38] fix: read the ProgressBar option as a boolean

The option was read as text, and the text 'False' counts as true, so the
progress bar could not be switched off.
---
 tcevent.py |  2 +-
 tcrm.py    | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tcevent.py b/tcevent.py
index f48962d..5b92ce5 100755
--- a/tcevent.py
+++ b/tcevent.py
@@ -193,7 +193,7 @@ def main(configFile):
                                                 outputTrackFile,
                                                 interpolation_type='akima')
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
 
     pbar = ProgressBar('Calculating wind fields: ', showProgressBar)
 
diff --git a/tcrm.py b/tcrm.py
index a0b7386..8d16c1d 100755
--- a/tcrm.py
+++ b/tcrm.py
@@ -117,7 +117,7 @@ def doDataDownload(configFile):
     config = ConfigParser()
     config.read(configFile)
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
 
     datasets.loadDatasets(configFile)
     for dataset in datasets.DATASETS:
@@ -189,7 +189,7 @@ def doTrackGeneration(configFile):
     config = ConfigParser()
     config.read(configFile)
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
 
     pbar = ProgressBar('Simulating cyclone tracks: ', showProgressBar)
 
@@ -217,7 +217,7 @@ def doWindfieldCalculations(configFile):
     config = ConfigParser()
     config.read(configFile)
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
 
     pbar = ProgressBar('Calculating wind fields: ', showProgressBar)
 
@@ -244,7 +244,7 @@ def doDataProcessing(configFile):
     config = ConfigParser()
     config.read(configFile)
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
 
     pbar = ProgressBar('Processing data files: ', showProgressBar)
 
@@ -271,7 +271,7 @@ def doDataPlotting(configFile):
     config = ConfigParser()
     config.read(configFile)
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
     pbar = ProgressBar('Plotting results: ', showProgressBar)
 
     outputPath = config.get('Output', 'Path')
@@ -355,7 +355,7 @@ def doStatistics(configFile):
     config = ConfigParser()
     config.read(configFile)
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
     getRMWDistFromInputData = config.getboolean('RMW',
                                                 'GetRMWDistFromInputData')
 
@@ -409,7 +409,7 @@ def doHazard(configFile):
     config = ConfigParser()
     config.read(configFile)
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
     pbar = ProgressBar('Performing hazard calculations: ', showProgressBar)
 
     def status(done, total):
@@ -437,7 +437,7 @@ def doHazardPlotting(configFile):
 
     log.info('Plotting Hazard Maps')
 
-    showProgressBar = config.get('Logging', 'ProgressBar')
+    showProgressBar = config.getboolean('Logging', 'ProgressBar')
     pbar = ProgressBar('Plotting hazard maps: ', showProgressBar)
     pbar.update(0.0)
 
-- 
2.43.0


From 786f61440d5c1e157c0f5898ef46ae0f0e84a905 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:44:38 +0000
Subject: [PATCH 31/38] fix: use lower case option names in the table of
 parsers

Option names are turned into lower case when a file is read, so the
entries with capital letters were never found and items() returned text
for boolean options.
---
 Utilities/config.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 14efc45..faf438b 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -84,7 +84,7 @@ PARSERS = {
     'Hazard_samplesize': int,
     'Hazard_percentilerange': int,
     'Hazard_extremevaluedistribution': str,
-    'Hazard_SmoothPlots': parseBool,
+    'Hazard_smoothplots': parseBool,
     'Input_landmask': str,
     'Input_locationfile': str,
     'Input_mslpgrid': parseList,
@@ -117,10 +117,10 @@ PARSERS = {
     'TCRM_numberofheadinglines': int,
     'TCRM_pressureunits': str,
     'TCRM_speedunits': str,
-    'Timeseries_Extract': parseBool,
-    'Timeseries_LocationFile': str,
-    'Timeseries_StationID': str,
-    'Timeseries_Windfields': parseBool,
+    'Timeseries_extract': parseBool,
+    'Timeseries_locationfile': str,
+    'Timeseries_stationid': str,
+    'Timeseries_windfields': parseBool,
     'TrackGenerator_numsimulations': int,
     'TrackGenerator_seasonseed': int,
     'TrackGenerator_trackseed': int,
-- 
2.43.0


From 74c71a3dd07c0d5e54b743aec0e7b0c65813180f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:48:36 +0000
Subject: [PATCH 32/38] fix: document the option that the impact calculation
 needs

Exposure has no default and is read whenever impacts are calculated.
---
 docs/setup.rst | 1064 ++++++++++++++++++++++++------------------------
 1 file changed, 538 insertions(+), 526 deletions(-)

diff --git a/docs/setup.rst b/docs/setup.rst
index 875e279..7f63a25 100644
--- a/docs/setup.rst
+++ b/docs/setup.rst
@@ -1,526 +1,538 @@
-.. |beta|   unicode:: U+003B2 .. GREEK SMALL LETTER BETA
-
-.. _modelsetup:
-
-====================
-Setting up the model
-====================
-
-Execution of TCRM is controlled by reading the simulation settings
-from a configuration file. The configuration file is a text file, and
-can be edited in any text editor (e.g. Notepad, Wordpad, vi, emacs,
-gedit). An example configuration file is provided in the examples
-folder to give users a starting point.
-
-
-.. _configurationfile:
-
-The configuration file
-======================
-
-The TCRM configuration file is divided into a series of sections, each
-with a set of option/value pairs. Most options have default values and
-may not need to be specified in the configuration file. One value that
-has no default is the Region gridLimit option. This defines the model
-domain and must be set in any configuration file used.
-
-.. _configureactions:
-
-Actions
--------
-
-This section defines which components of TCRM will be
-executed. The options are:
-
-* `DownloadData` - download input datasets (defaults are included)
-* `DataProcess` - process the input TC track database
-* `ExecuteStat` - calculate the TC statistics over the model domain
-* `ExecuteTrackGenerator` - generate a set of stochastic TC tracks
-* `ExecuteWindfield` - Calculate the wind field around a set of TC
-  tracks
-* `ExecuteHazard` - Calculate the return period wind speeds from a set
-  of wind field files
-* `PlotHazard` - Plot the return period wind speed maps and return
-  period curves for locations in the model domain
-* `PlotData` - Plot some basic statistical analyses of the input TC
-  track database
-* `ExecuteEvaluate` - Evaluate a set of stochastic TC tracks, comparing
-  to the input TC track database.
-
-All options are boolean (i.e. ``True`` or ``False``). ::
-
-    [Actions]
-    DataProcess = True
-    ExecuteStat = True
-    ExecuteTrackGenerator = True
-    ExecuteWindfield = True
-    ExecuteHazard = True
-    PlotHazard = True
-    PlotData = False
-    ExecuteEvaluate = False
-    CreateDatabase = True
-    DownloadData = True
-
-.. _configureregion:
-
-Region
-------
-
-This section defines the simulation domain and the size of the grid over
-which statistics are calculated. The simulation domain (``gridLimit``) is
-specified as a Python dict with keys of ``xMin``, ``xMax``, ``yMin``
-and ``yMax``. This sets the domain over which the wind fields and
-hazard will be calculated. Stochastic tracks are generated over a
-broader domain (called the "track domain"). The ``gridSpace`` option controls
-the size of the grid cells, which are used for calculating statistics. At this
-time, the values here must be integer values, but can be different in the ``x``
-(east-west) and ``y`` (north-south) directions. The ``gridInc`` option
-control the incremental increase in grid cell size when insufficient
-observations are located within a grid cell (see the :mod:`StatInterface`
-description)::
-
-    [Region]
-    gridLimit = {'xMin': 113.0, 'xMax': 124.0, 'yMin': -24.0, 'yMax': -13.0}
-    gridSpace = {'x':1.0,'y':1.0} 
-    gridInc = {'x':1.0,'y':0.5}
-
-.. _configuredataprocess:
-
-DataProcess
------------
-
-This section controls aspects of the processing of the input track
-database. Firstly, the ``InputFile`` option specifies the file to be
-processed. A relative or absolute path can be used. If no path name is
-included (as in the example below), then TCRM assumes the file is
-stored in the ``input`` path. If using an automatically
-downloaded dataset, then this file name must match the name
-specified in the appropriate dataset section (which is named by the
-``Source`` option in this section) of the configuration file (further
-details below).
-
-The ``Source`` option is a string value that acts as a pointer to a
-subsequent section in the configuration file, that holds details of
-the input track file structure. The additional section must have the same label
-as set here (the label is case-sensitive).
-
-The ``StartSeason`` and ``FilterSeason`` options control what years of
-the input track database are used in calibrating the model. In the
-default case, only data from 1981 onwards is used for model
-calibration. If ``FilterSeasons = False``, no season filtering is
-performed and the full input track database is used. ::
-
-    [DataProcess]
-    InputFile = ibtracs.since1980.list.v04r00.csv
-    StartSeason = 1981
-    FilterSeasons = True
-    Source = IBTRACS
-
-.. _configurestatinterface:
-
-StatInterface
--------------
-
-The ``StatInterface`` section controls the methods used to calculate
-distributions of TC parameters from the input track database.
-
-``kdeType`` specifies the kernel used in the kernel
-density estimation method for creating probability density functions
-that are used in selecting initial values for the stochastic TC events
-(e.g. longitude, latitude, initial pressure, speed and
-bearing). ``kdeStep`` defines the increment in the generated
-probability density functions and cumulative distribution functions.
-
-Options for ``kdeType`` ::
-    'gau'
-    'epa'
-    'uni'
-    'tri'
-    'biw'
-    'triw'
-    'cos'
-    'cos2'
-
-
-``kde2DType`` is deprecated.
-
-``minSamplesCell`` sets the minimum number of valid observations in
-each grid cell that are required for calculating the distributions,
-variances and autocorrelations used in the :mod:`TrackGenerator`
-module. If there are insufficient valid observations, then the bounds
-of the grid cell are incrementally increased (in steps as specified by
-the ``gridInc`` values) until sufficient observations are found. ::
-
-    [StatInterface]
-    kdeType = gau
-    kde2DType = gau
-    kdeStep = 0.2
-    minSamplesCell = 100
-
-.. _configuretrackgenerator:
-
-TrackGenerator
---------------
-
-The ``TrackGenerator`` section controls the stochastic track
-generation module. It is here that users can control the number of
-events and the number of years generated.
-
-The ``NumSimulations`` option sets the number of TC event sets that
-will be generated. Any integer number of events (up to 1,000,000) is
-possible. ``YearsPerSimulation`` sets the number of simulated years
-that will be generated for each event set. For evaluating hazard, the
-value should be set to 1, as the extreme value distribution fitting
-process assumes annual maxima. The annual frequency of events is based
-on a Poisson distribution around the mean annual frequency, which is
-determined from the input track database.
-
-For track model evaluations, it is recommended to set
-``YearsPerSimulation`` to a similar number to the number of years in
-the input track database. For example, in our testing that used data
-from 1981--2013, we set the value to 30.
-
-``NumTimeSteps`` controls the maximum lifetime an event can exist
-for. ``TimeStep`` sets the time interval (in hours) for the track
-generator. 
-
-``SeasonSeed`` and ``TrackSeed`` are used to fix the random
-number generator on parallel systems to ensure truly random numbers on
-each individual processor. If they are absent, the seed is set using an integer
-representation of the current time, and is recorded in the output metadata (e.g.
-attributes in the netcdf files). ::
-
-    [TrackGenerator]
-    NumSimulations = 500
-    YearsPerSimulation = 1
-    NumTimeSteps = 360
-    TimeStep = 1.0
-    SeasonSeed = 1
-    TrackSeed = 1
-
-This example will generate 500 realisations of one year of TC activity, with
-hourly timesteps to a maximum of 360 hours. 
-
-
-.. _configurewindfield:
-
-WindfieldInterface
-------------------
-
-The ``WindfieldInterface`` section controls how the wind fields from
-each track in the simulated tracks are calculated. There are two main
-components to the wind field -- the radial profile and the boundary
-layer model.
-
-The ``profileType`` option sets the radial profile used. Valid values are:
-
-* ``holland`` -- the radial profile of Holland (1980) [1]_
-* ``powell`` -- Similar to the Holland profile, but uses a variable
-  beta parameter that is a function of latitude and size. [2]_
-* ``schloemer`` -- From Schloemer (1954) -- essentially the Holland
-  profile with a beta value of 1 [3]_
-* ``willoughby`` -- From Willoughby and Rahn (2004). Again, the
-  Holland profile, with beta a function of the maximum wind speed,
-  radius to maximum wind and latitude [4]_
-* ``jelesnianski`` -- From Jelesnianski (1966). [5]_
-* ``doubleHolland`` -- A double exponential profile from McConochie
-  *et al.* (2004) [6]_
-
-The ``windFieldType`` value selects the boundary layer model
-used. Three boundary layer models have been implemented:
-
-* ``kepert`` -- the linearised boundary layer model of Kepert (2001)
-  [7]_
-* ``hubbert`` -- a vector addition of forward speed and tangential
-  wind speed from Hubbert *et al.* (1994) [8]_
-* ``mcconochie`` -- a second vector addition model, from McConochie
-  *et al.* (2004) [6]_
-
-The ``beta`` option specifies the |beta| parameter used in the Holland
-wind profile. The additional |beta| options (``beta1`` and ``beta2``)
-are used in the ``doubleHolland`` wind profile, which is a double
-exponential profile, therefore requiring two |beta| parameters.
-
-``thetaMax`` is used in the McConochie and Hubbert boundary layer
-models to specify the azimuthal location of the maximum wind speed
-under the translating storm.
-
-``Margin`` defines the spatial extent over which the wind field is
-calculated and is in units of degrees. A margin of 5 is recommended
-for hazard models, to ensure low wind speeds from distant TCs are
-incorporated into the fitting procedure.
-
-``Resolution`` is the horizontal resolution (in degrees) of the wind
-fields. Values should be no larger than 0.05 degrees, as the absolute
-peak of the radial profile may not be adequately resolved, leading to
-an underestimation of the maximum wind speeds. 
-
-``Domain`` is an alternative to setting ``Margin``. If set to "bounded"
-(default), the wind field domain will be determined by the ``Margin`` option. 
-If set to "full", the wind field domain will be set to match ``Region -
-gridLimit``. 
-
-*If this option is chosen, the execution time will be significantly
-longer. Recommended for single scenarios only*. ::
-
-    [WindfieldInterface]
-    profileType = holland
-    windFieldType = kepert
-    beta = 1.3
-    beta1 = 1.3
-    beta2 = 1.3
-    thetaMax = 70.0
-    Margin = 2
-    Resolution = 0.05
-    Domain = bounded
-
-.. _configurehazard:
-
-Hazard
-------
-
-The ``Hazard`` section controls how the model calculates average recurrence
-(ARI) wind speeds, and whether to calculate confidence ranges.
-
-``ExtremeValueDistribution`` sets the method for calculating ARI wind speeds.
-Options are "emp" (empirical), "power" (power law), "GPD" (Generalised pareto
-distribution) or "GEV" (Generalised Extreme Value distribution). 
-
-The ``Years`` option is a comma separated list of integer values that
-specifies the return periods for which wind speeds will be
-calculated. For ``ExtremeValueDistribution = emp``, the years cannot exceed the
-total number of simulated years in the ``TrackGenerator`` options. 
-
-``MinimumRecords`` sets the minimum number of values
-required for performing the fitting procedure at a given grid point.
-
-``CalculateCI`` sets whether the :mod:`hazard` module will calculate
-confidence ranges using a bootstrap resampling method. If ``True``,
-the module will run the fitting process multiple times and calculate
-upper and lower percentile values of the resulting return period wind
-speeds. The ``PercentileRange`` option sets the range -- for a value
-of 90, the module will calculatae the 5th and 95th percentile
-values. ``SampleSize`` sets the number of randomly selected values
-that will be used in each realisation of the extreme value fitting
-procedure for calculating the confidence range. 
-
-``SmoothPlots`` will apply a gaussian filter to the data before plotting on maps
-to minimise the inference of lines on maps. This may cause the maps to have
-large areas of no data due to the filtering function. ::
-
-    [Hazard]
-    ExtremeValueDistribution = emp
-    Years = 2,5,10,20,25,50,100,200,250,500,1000
-    MinimumRecords = 50
-    CalculateCI = True
-    PercentileRange = 90
-    SampleSize = 50
-    PlotSpeedUnits = mps
-    SmoothPlots = True
-
-.. _configurermw:
-
-RMW
-----
-
-The ``RMW`` section contains a single option: ``GetRMWDistFromInputData``. 
-Set this value to ``True`` if the input track database has reliable data 
-on the radius to maximum winds. 
-
-If no suitable data exists (``GetRMWDistFromInputData = False``), TCRM will use
-a regression model to determine RMW from the intensity and latitude of the
-storm. ::
-
-    [RMW]
-    GetRMWDistFromInputData = False
-
-.. _configureinput:
-
-Input
------
-
-The ``Input`` section sets the source of some supplementary data, as
-well as the datasets to be automatically downloaded. The ``LandMask``
-option specifies the path to a netcdf file (supplied) that contains a
-land/sea mask. The ``MSLPFile`` option specifies the path to a netcdf
-file (downloaded) that contains daily long-term mean sea level
-pressure data (e.g. from a NCEP/NCAR reanalysis products). The 
-``LocationFile`` option specifies the path to a point shape file that contains
-the longitude and latitude of locations for which to extract hazard information
-at the conclusion of a simulation.
-
-The ``Datasest`` option is a comma separated list of values indicating
-the data that should be downloaded on first execution. For each value
-in the list, there must be a corresponding section in the
-configuration file, that has options of ``URL`` (the URL of the data
-to be downloaded), ``path`` (where to store the data once it has been
-downloaded) and ``filename`` (the filename to give to the data once
-downloaded).
-
-In the example below, for the ``IBTRACS`` dataset, there are
-additional options that describe the format of the track database with
-the same name.  This is a legitimate approach, so long as there are no
-duplicate options.
-
-Note that the ``filename`` option in the ``IBTRACS`` section matches
-the ``InputFile`` option in the ``DataProcess`` section, and the
-``filename`` in the ``LTMSLP`` section matches the ``MSLPFile`` in the
-``Input`` section.
-
-The ``CoastlineGates`` option specifies the path to a comma-delimited
-text file that holds the points of a series of coastline gates that
-are used in the :mod:`Evaluate.landfallRates` module. ::
-
-    [Input]
-    LocationFile = input/stationlist.shp
-    LandMask = input/landmask.nc
-    MSLPFile = MSLP/slp.day.ltm.nc
-    Datasets = IBTRACS,LTMSLP
-    CoastlineGates = input/gates.csv
-
-    [IBTRACS]
-    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
-    path = input
-    Filename = ibtracs.since1980.list.v04r00.csv
-    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
-    FieldDelimiter = ,
-    NumberOfHeadingLines = 2
-    PressureUnits = hPa
-    LengthUnits = km
-    SpeedUnits = kph
-    DateFormat = %Y-%m-%d %H:%M:%S
-
-    [LTMSLP]
-    URL = ftp://ftp.cdc.noaa.gov/Datasets/ncep.reanalysis.derived/surface/slp.day.1981-2010.ltm.nc
-    path = MSLP
-    filename = slp.day.ltm.nc
-
-.. _configureoutput:
-
-Output
-------
-
-The ``Output`` section defines the destination of the model output. Set the 
-``Path`` option to the directory where you wish to store the data. Paths can 
-be relative or absolute. By default, output is stored in a subdirectory of 
-the working directory named ``output``. ::
-
-    [Output]
-    Path = output
-
-.. _configurelogging:
-
-Logging
--------
-
-The ``Logging`` section controls how the model records progress to
-file (and optionally STDOUT). ``LogFile`` option specifies the name of
-the log file. If no path is given, then the log file will be stored in
-the current working directory. For parallel execution, a separate log
-file is created for each thread, with the rank of the process appended
-to the name of the file.
-
-The ``LogLevel`` is one of the :mod:`Logging` `levels
-<https://docs.python.org/2/library/logging.html#logging-levels>`_. Default
-is ``INFO``. 
-
-The ``Verbose`` option allows users to print all logging
-messages to the standard output (default False). This can be useful when attempting to
-identify problems with execution. For parallel execution, this is set
-to ``False`` (to prevent repeated messages being printed to the
-screen). 
-
-Setting the ``ProgressBar`` option to ``True`` will display a
-simple progress bar on the screen to indicate the status of the model
-execution (default False). This will be turned off if TCRM is executed on a parallel
-system, or if it is run in batch mode. 
-
-If ``Datestamp = True``, a timestamp will be included in the filename for the
-log file (default False). ::
-
-    [Logging]
-    LogFile = main.log
-    LogLevel = INFO
-    Verbose = False
-    ProgressBar = False
-    Datestamp = False
-
-.. _configuresource:
-
-Source format options
----------------------
-
-For the input data source specified in the :menuselection:`DataProcess --> Source`
-option, there must be a corresponding section of the given name. In
-this example case, the source is specified as ``IBTRACS`` (the same as
-one of the ``Dataset`` options). The ``IBTRACS`` section therefore
-controls both the download dataset options, and specifies the textural
-format of the input track database.
-
-The options that relate to the dataset download are ``URL``, ``path``
-and ``filename``. ``URL`` specifies the location of the data to be
-downloaded. The ``path`` option specifies the path name for the
-storage location of the dataset. The ``filename`` option gives the
-name of the file to be saved (this can be different from the name of
-the dataset).
-
-The remaining options relate to the format of the track
-database. ``Columns`` is a comma-separated list of the column names in
-the input database. If a column is to be ignored, it should be named
-``skip``. The ``FieldDelimiter`` is the delimiter used in the input
-track database (it's assumed that the input file is a text format
-file!). The ``NumberOfHeadingLines`` indicates the number of text
-lines at the top of the file that should be ignored (usually this is
-column headers -- due to the multiple lines used in some track
-databases, TCRM does not attempt to decipher the column names from the
-header. ``PressureUnits``, ``LengthUnits`` and ``SpeedUnits`` specify
-the units the numerical values of pressure, distance and speed
-(respectively) used in the input track database. The ``DateFormat``
-option is a string represenation of the date format used in the track
-database. The format should use Python's `datetime
-<https://docs.python.org/2/library/datetime.html#strftime-and-strptime-behavior>`_
-formats.  ::
-
-    [IBTRACS]
-    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
-    path = input
-    Filename = ibtracs.since1980.list.v04r00.csv
-    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
-    FieldDelimiter = ,
-    NumberOfHeadingLines = 2
-    PressureUnits = hPa
-    LengthUnits = km
-    SpeedUnits = kph
-    DateFormat = %Y-%m-%d %H:%M:%S
- 
-.. _references:
-
-References
-----------
-
-.. [1] Holland, G. J. (1980): An Analytic Model of the Wind and Pressure 
-       Profiles in Hurricanes. *Monthly Weather Review*, **108**
-.. [2] Powell, M., G. Soukup, S. Cocke, S. Gulati, N. Morisseau-Leroy, S. 
-       Hamid, N. Dorst, and L. Axe (2005): State of Florida hurricane loss 
-       projection model: Atmospheric science component. *Journal of Wind 
-       Engineering and Industrial Aerodynamics*, **93**, 651--674
-.. [3] Schloemer, R. W. (1954): Analysis and synthesis of hurricane wind 
-       patterns over Lake Okeechobee. *NOAA Hydrometeorology Report* **31**, 
-       1954
-.. [4] Willoughby, H. E. and M. E. Rahn (2004): Parametric Representation 
-       of the Primary Hurricane Vortex. Part I: Observations and 
-       Evaluation of the Holland (1980) Model. *Monthly Weather Review*, 
-       **132**, 3033--3048
-.. [5] Jelesnianski, C. P. (1966): Numerical Computations of Storm Surges 
-       without Bottom Stress. *Monthly Weather Review*, **94**, 379--394
-.. [6] McConochie, J. D., T. A. Hardy, and L. B.  Mason (2004):  Modelling 
-       tropical cyclone over-water wind and pressure fields. *Ocean 
-       Engineering*, **31**, 1757--1782
-
-.. [7] Kepert, J. D. (2001): The Dynamics of Boundary Layer Jets 
-       within the Tropical Cyclone Core. Part I: Linear Theory.  
-       *J. Atmos. Sci.*, **58**, 2469--2484 
-.. [8] Hubbert, G. D., G. J. Holland, L. M. Leslie and M. J. Manton (1991): 
-       A Real-Time System for Forecasting Tropical Cyclone Storm Surges. 
-       *Weather and Forecasting*, **6**, 86--97
-
+.. |beta|   unicode:: U+003B2 .. GREEK SMALL LETTER BETA
+
+.. _modelsetup:
+
+====================
+Setting up the model
+====================
+
+Execution of TCRM is controlled by reading the simulation settings
+from a configuration file. The configuration file is a text file, and
+can be edited in any text editor (e.g. Notepad, Wordpad, vi, emacs,
+gedit). An example configuration file is provided in the examples
+folder to give users a starting point.
+
+
+.. _configurationfile:
+
+The configuration file
+======================
+
+The TCRM configuration file is divided into a series of sections, each
+with a set of option/value pairs. Most options have default values and
+may not need to be specified in the configuration file. One value that
+has no default is the Region gridLimit option. This defines the model
+domain and must be set in any configuration file used.
+
+.. _configureactions:
+
+Actions
+-------
+
+This section defines which components of TCRM will be
+executed. The options are:
+
+* `DownloadData` - download input datasets (defaults are included)
+* `DataProcess` - process the input TC track database
+* `ExecuteStat` - calculate the TC statistics over the model domain
+* `ExecuteTrackGenerator` - generate a set of stochastic TC tracks
+* `ExecuteWindfield` - Calculate the wind field around a set of TC
+  tracks
+* `ExecuteHazard` - Calculate the return period wind speeds from a set
+  of wind field files
+* `PlotHazard` - Plot the return period wind speed maps and return
+  period curves for locations in the model domain
+* `PlotData` - Plot some basic statistical analyses of the input TC
+  track database
+* `ExecuteEvaluate` - Evaluate a set of stochastic TC tracks, comparing
+  to the input TC track database.
+
+All options are boolean (i.e. ``True`` or ``False``). ::
+
+    [Actions]
+    DataProcess = True
+    ExecuteStat = True
+    ExecuteTrackGenerator = True
+    ExecuteWindfield = True
+    ExecuteHazard = True
+    PlotHazard = True
+    PlotData = False
+    ExecuteEvaluate = False
+    CreateDatabase = True
+    DownloadData = True
+
+.. _configureregion:
+
+Region
+------
+
+This section defines the simulation domain and the size of the grid over
+which statistics are calculated. The simulation domain (``gridLimit``) is
+specified as a Python dict with keys of ``xMin``, ``xMax``, ``yMin``
+and ``yMax``. This sets the domain over which the wind fields and
+hazard will be calculated. Stochastic tracks are generated over a
+broader domain (called the "track domain"). The ``gridSpace`` option controls
+the size of the grid cells, which are used for calculating statistics. At this
+time, the values here must be integer values, but can be different in the ``x``
+(east-west) and ``y`` (north-south) directions. The ``gridInc`` option
+control the incremental increase in grid cell size when insufficient
+observations are located within a grid cell (see the :mod:`StatInterface`
+description)::
+
+    [Region]
+    gridLimit = {'xMin': 113.0, 'xMax': 124.0, 'yMin': -24.0, 'yMax': -13.0}
+    gridSpace = {'x':1.0,'y':1.0} 
+    gridInc = {'x':1.0,'y':0.5}
+
+.. _configuredataprocess:
+
+DataProcess
+-----------
+
+This section controls aspects of the processing of the input track
+database. Firstly, the ``InputFile`` option specifies the file to be
+processed. A relative or absolute path can be used. If no path name is
+included (as in the example below), then TCRM assumes the file is
+stored in the ``input`` path. If using an automatically
+downloaded dataset, then this file name must match the name
+specified in the appropriate dataset section (which is named by the
+``Source`` option in this section) of the configuration file (further
+details below).
+
+The ``Source`` option is a string value that acts as a pointer to a
+subsequent section in the configuration file, that holds details of
+the input track file structure. The additional section must have the same label
+as set here (the label is case-sensitive).
+
+The ``StartSeason`` and ``FilterSeason`` options control what years of
+the input track database are used in calibrating the model. In the
+default case, only data from 1981 onwards is used for model
+calibration. If ``FilterSeasons = False``, no season filtering is
+performed and the full input track database is used. ::
+
+    [DataProcess]
+    InputFile = ibtracs.since1980.list.v04r00.csv
+    StartSeason = 1981
+    FilterSeasons = True
+    Source = IBTRACS
+
+.. _configurestatinterface:
+
+StatInterface
+-------------
+
+The ``StatInterface`` section controls the methods used to calculate
+distributions of TC parameters from the input track database.
+
+``kdeType`` specifies the kernel used in the kernel
+density estimation method for creating probability density functions
+that are used in selecting initial values for the stochastic TC events
+(e.g. longitude, latitude, initial pressure, speed and
+bearing). ``kdeStep`` defines the increment in the generated
+probability density functions and cumulative distribution functions.
+
+Options for ``kdeType`` ::
+    'gau'
+    'epa'
+    'uni'
+    'tri'
+    'biw'
+    'triw'
+    'cos'
+    'cos2'
+
+
+``kde2DType`` is deprecated.
+
+``minSamplesCell`` sets the minimum number of valid observations in
+each grid cell that are required for calculating the distributions,
+variances and autocorrelations used in the :mod:`TrackGenerator`
+module. If there are insufficient valid observations, then the bounds
+of the grid cell are incrementally increased (in steps as specified by
+the ``gridInc`` values) until sufficient observations are found. ::
+
+    [StatInterface]
+    kdeType = gau
+    kde2DType = gau
+    kdeStep = 0.2
+    minSamplesCell = 100
+
+.. _configuretrackgenerator:
+
+TrackGenerator
+--------------
+
+The ``TrackGenerator`` section controls the stochastic track
+generation module. It is here that users can control the number of
+events and the number of years generated.
+
+The ``NumSimulations`` option sets the number of TC event sets that
+will be generated. Any integer number of events (up to 1,000,000) is
+possible. ``YearsPerSimulation`` sets the number of simulated years
+that will be generated for each event set. For evaluating hazard, the
+value should be set to 1, as the extreme value distribution fitting
+process assumes annual maxima. The annual frequency of events is based
+on a Poisson distribution around the mean annual frequency, which is
+determined from the input track database.
+
+For track model evaluations, it is recommended to set
+``YearsPerSimulation`` to a similar number to the number of years in
+the input track database. For example, in our testing that used data
+from 1981--2013, we set the value to 30.
+
+``NumTimeSteps`` controls the maximum lifetime an event can exist
+for. ``TimeStep`` sets the time interval (in hours) for the track
+generator. 
+
+``SeasonSeed`` and ``TrackSeed`` are used to fix the random
+number generator on parallel systems to ensure truly random numbers on
+each individual processor. If they are absent, the seed is set using an integer
+representation of the current time, and is recorded in the output metadata (e.g.
+attributes in the netcdf files). ::
+
+    [TrackGenerator]
+    NumSimulations = 500
+    YearsPerSimulation = 1
+    NumTimeSteps = 360
+    TimeStep = 1.0
+    SeasonSeed = 1
+    TrackSeed = 1
+
+This example will generate 500 realisations of one year of TC activity, with
+hourly timesteps to a maximum of 360 hours. 
+
+
+.. _configurewindfield:
+
+WindfieldInterface
+------------------
+
+The ``WindfieldInterface`` section controls how the wind fields from
+each track in the simulated tracks are calculated. There are two main
+components to the wind field -- the radial profile and the boundary
+layer model.
+
+The ``profileType`` option sets the radial profile used. Valid values are:
+
+* ``holland`` -- the radial profile of Holland (1980) [1]_
+* ``powell`` -- Similar to the Holland profile, but uses a variable
+  beta parameter that is a function of latitude and size. [2]_
+* ``schloemer`` -- From Schloemer (1954) -- essentially the Holland
+  profile with a beta value of 1 [3]_
+* ``willoughby`` -- From Willoughby and Rahn (2004). Again, the
+  Holland profile, with beta a function of the maximum wind speed,
+  radius to maximum wind and latitude [4]_
+* ``jelesnianski`` -- From Jelesnianski (1966). [5]_
+* ``doubleHolland`` -- A double exponential profile from McConochie
+  *et al.* (2004) [6]_
+
+The ``windFieldType`` value selects the boundary layer model
+used. Three boundary layer models have been implemented:
+
+* ``kepert`` -- the linearised boundary layer model of Kepert (2001)
+  [7]_
+* ``hubbert`` -- a vector addition of forward speed and tangential
+  wind speed from Hubbert *et al.* (1994) [8]_
+* ``mcconochie`` -- a second vector addition model, from McConochie
+  *et al.* (2004) [6]_
+
+The ``beta`` option specifies the |beta| parameter used in the Holland
+wind profile. The additional |beta| options (``beta1`` and ``beta2``)
+are used in the ``doubleHolland`` wind profile, which is a double
+exponential profile, therefore requiring two |beta| parameters.
+
+``thetaMax`` is used in the McConochie and Hubbert boundary layer
+models to specify the azimuthal location of the maximum wind speed
+under the translating storm.
+
+``Margin`` defines the spatial extent over which the wind field is
+calculated and is in units of degrees. A margin of 5 is recommended
+for hazard models, to ensure low wind speeds from distant TCs are
+incorporated into the fitting procedure.
+
+``Resolution`` is the horizontal resolution (in degrees) of the wind
+fields. Values should be no larger than 0.05 degrees, as the absolute
+peak of the radial profile may not be adequately resolved, leading to
+an underestimation of the maximum wind speeds. 
+
+``Domain`` is an alternative to setting ``Margin``. If set to "bounded"
+(default), the wind field domain will be determined by the ``Margin`` option. 
+If set to "full", the wind field domain will be set to match ``Region -
+gridLimit``. 
+
+*If this option is chosen, the execution time will be significantly
+longer. Recommended for single scenarios only*. ::
+
+    [WindfieldInterface]
+    profileType = holland
+    windFieldType = kepert
+    beta = 1.3
+    beta1 = 1.3
+    beta2 = 1.3
+    thetaMax = 70.0
+    Margin = 2
+    Resolution = 0.05
+    Domain = bounded
+
+.. _configurehazard:
+
+Hazard
+------
+
+The ``Hazard`` section controls how the model calculates average recurrence
+(ARI) wind speeds, and whether to calculate confidence ranges.
+
+``ExtremeValueDistribution`` sets the method for calculating ARI wind speeds.
+Options are "emp" (empirical), "power" (power law), "GPD" (Generalised pareto
+distribution) or "GEV" (Generalised Extreme Value distribution). 
+
+The ``Years`` option is a comma separated list of integer values that
+specifies the return periods for which wind speeds will be
+calculated. For ``ExtremeValueDistribution = emp``, the years cannot exceed the
+total number of simulated years in the ``TrackGenerator`` options. 
+
+``MinimumRecords`` sets the minimum number of values
+required for performing the fitting procedure at a given grid point.
+
+``CalculateCI`` sets whether the :mod:`hazard` module will calculate
+confidence ranges using a bootstrap resampling method. If ``True``,
+the module will run the fitting process multiple times and calculate
+upper and lower percentile values of the resulting return period wind
+speeds. The ``PercentileRange`` option sets the range -- for a value
+of 90, the module will calculatae the 5th and 95th percentile
+values. ``SampleSize`` sets the number of randomly selected values
+that will be used in each realisation of the extreme value fitting
+procedure for calculating the confidence range. 
+
+``SmoothPlots`` will apply a gaussian filter to the data before plotting on maps
+to minimise the inference of lines on maps. This may cause the maps to have
+large areas of no data due to the filtering function. ::
+
+    [Hazard]
+    ExtremeValueDistribution = emp
+    Years = 2,5,10,20,25,50,100,200,250,500,1000
+    MinimumRecords = 50
+    CalculateCI = True
+    PercentileRange = 90
+    SampleSize = 50
+    PlotSpeedUnits = mps
+    SmoothPlots = True
+
+.. _configureimpact:
+
+Impact
+------
+
+``tcevent.py`` calculates the impact of an event when ``ExecuteImpact`` is set
+to ``True`` in the ``Actions`` section. In that case the ``Exposure`` option has
+no default and must be set to the path of the exposure data. ::
+
+    [Impact]
+    Exposure = ./input/exposure.csv
+
+.. _configurermw:
+
+RMW
+----
+
+The ``RMW`` section contains a single option: ``GetRMWDistFromInputData``. 
+Set this value to ``True`` if the input track database has reliable data 
+on the radius to maximum winds. 
+
+If no suitable data exists (``GetRMWDistFromInputData = False``), TCRM will use
+a regression model to determine RMW from the intensity and latitude of the
+storm. ::
+
+    [RMW]
+    GetRMWDistFromInputData = False
+
+.. _configureinput:
+
+Input
+-----
+
+The ``Input`` section sets the source of some supplementary data, as
+well as the datasets to be automatically downloaded. The ``LandMask``
+option specifies the path to a netcdf file (supplied) that contains a
+land/sea mask. The ``MSLPFile`` option specifies the path to a netcdf
+file (downloaded) that contains daily long-term mean sea level
+pressure data (e.g. from a NCEP/NCAR reanalysis products). The 
+``LocationFile`` option specifies the path to a point shape file that contains
+the longitude and latitude of locations for which to extract hazard information
+at the conclusion of a simulation.
+
+The ``Datasest`` option is a comma separated list of values indicating
+the data that should be downloaded on first execution. For each value
+in the list, there must be a corresponding section in the
+configuration file, that has options of ``URL`` (the URL of the data
+to be downloaded), ``path`` (where to store the data once it has been
+downloaded) and ``filename`` (the filename to give to the data once
+downloaded).
+
+In the example below, for the ``IBTRACS`` dataset, there are
+additional options that describe the format of the track database with
+the same name.  This is a legitimate approach, so long as there are no
+duplicate options.
+
+Note that the ``filename`` option in the ``IBTRACS`` section matches
+the ``InputFile`` option in the ``DataProcess`` section, and the
+``filename`` in the ``LTMSLP`` section matches the ``MSLPFile`` in the
+``Input`` section.
+
+The ``CoastlineGates`` option specifies the path to a comma-delimited
+text file that holds the points of a series of coastline gates that
+are used in the :mod:`Evaluate.landfallRates` module. ::
+
+    [Input]
+    LocationFile = input/stationlist.shp
+    LandMask = input/landmask.nc
+    MSLPFile = MSLP/slp.day.ltm.nc
+    Datasets = IBTRACS,LTMSLP
+    CoastlineGates = input/gates.csv
+
+    [IBTRACS]
+    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
+    path = input
+    Filename = ibtracs.since1980.list.v04r00.csv
+    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
+    FieldDelimiter = ,
+    NumberOfHeadingLines = 2
+    PressureUnits = hPa
+    LengthUnits = km
+    SpeedUnits = kph
+    DateFormat = %Y-%m-%d %H:%M:%S
+
+    [LTMSLP]
+    URL = ftp://ftp.cdc.noaa.gov/Datasets/ncep.reanalysis.derived/surface/slp.day.1981-2010.ltm.nc
+    path = MSLP
+    filename = slp.day.ltm.nc
+
+.. _configureoutput:
+
+Output
+------
+
+The ``Output`` section defines the destination of the model output. Set the 
+``Path`` option to the directory where you wish to store the data. Paths can 
+be relative or absolute. By default, output is stored in a subdirectory of 
+the working directory named ``output``. ::
+
+    [Output]
+    Path = output
+
+.. _configurelogging:
+
+Logging
+-------
+
+The ``Logging`` section controls how the model records progress to
+file (and optionally STDOUT). ``LogFile`` option specifies the name of
+the log file. If no path is given, then the log file will be stored in
+the current working directory. For parallel execution, a separate log
+file is created for each thread, with the rank of the process appended
+to the name of the file.
+
+The ``LogLevel`` is one of the :mod:`Logging` `levels
+<https://docs.python.org/2/library/logging.html#logging-levels>`_. Default
+is ``INFO``. 
+
+The ``Verbose`` option allows users to print all logging
+messages to the standard output (default False). This can be useful when attempting to
+identify problems with execution. For parallel execution, this is set
+to ``False`` (to prevent repeated messages being printed to the
+screen). 
+
+Setting the ``ProgressBar`` option to ``True`` will display a
+simple progress bar on the screen to indicate the status of the model
+execution (default False). This will be turned off if TCRM is executed on a parallel
+system, or if it is run in batch mode. 
+
+If ``Datestamp = True``, a timestamp will be included in the filename for the
+log file (default False). ::
+
+    [Logging]
+    LogFile = main.log
+    LogLevel = INFO
+    Verbose = False
+    ProgressBar = False
+    Datestamp = False
+
+.. _configuresource:
+
+Source format options
+---------------------
+
+For the input data source specified in the :menuselection:`DataProcess --> Source`
+option, there must be a corresponding section of the given name. In
+this example case, the source is specified as ``IBTRACS`` (the same as
+one of the ``Dataset`` options). The ``IBTRACS`` section therefore
+controls both the download dataset options, and specifies the textural
+format of the input track database.
+
+The options that relate to the dataset download are ``URL``, ``path``
+and ``filename``. ``URL`` specifies the location of the data to be
+downloaded. The ``path`` option specifies the path name for the
+storage location of the dataset. The ``filename`` option gives the
+name of the file to be saved (this can be different from the name of
+the dataset).
+
+The remaining options relate to the format of the track
+database. ``Columns`` is a comma-separated list of the column names in
+the input database. If a column is to be ignored, it should be named
+``skip``. The ``FieldDelimiter`` is the delimiter used in the input
+track database (it's assumed that the input file is a text format
+file!). The ``NumberOfHeadingLines`` indicates the number of text
+lines at the top of the file that should be ignored (usually this is
+column headers -- due to the multiple lines used in some track
+databases, TCRM does not attempt to decipher the column names from the
+header. ``PressureUnits``, ``LengthUnits`` and ``SpeedUnits`` specify
+the units the numerical values of pressure, distance and speed
+(respectively) used in the input track database. The ``DateFormat``
+option is a string represenation of the date format used in the track
+database. The format should use Python's `datetime
+<https://docs.python.org/2/library/datetime.html#strftime-and-strptime-behavior>`_
+formats.  ::
+
+    [IBTRACS]
+    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
+    path = input
+    Filename = ibtracs.since1980.list.v04r00.csv
+    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
+    FieldDelimiter = ,
+    NumberOfHeadingLines = 2
+    PressureUnits = hPa
+    LengthUnits = km
+    SpeedUnits = kph
+    DateFormat = %Y-%m-%d %H:%M:%S
+ 
+.. _references:
+
+References
+----------
+
+.. [1] Holland, G. J. (1980): An Analytic Model of the Wind and Pressure 
+       Profiles in Hurricanes. *Monthly Weather Review*, **108**
+.. [2] Powell, M., G. Soukup, S. Cocke, S. Gulati, N. Morisseau-Leroy, S. 
+       Hamid, N. Dorst, and L. Axe (2005): State of Florida hurricane loss 
+       projection model: Atmospheric science component. *Journal of Wind 
+       Engineering and Industrial Aerodynamics*, **93**, 651--674
+.. [3] Schloemer, R. W. (1954): Analysis and synthesis of hurricane wind 
+       patterns over Lake Okeechobee. *NOAA Hydrometeorology Report* **31**, 
+       1954
+.. [4] Willoughby, H. E. and M. E. Rahn (2004): Parametric Representation 
+       of the Primary Hurricane Vortex. Part I: Observations and 
+       Evaluation of the Holland (1980) Model. *Monthly Weather Review*, 
+       **132**, 3033--3048
+.. [5] Jelesnianski, C. P. (1966): Numerical Computations of Storm Surges 
+       without Bottom Stress. *Monthly Weather Review*, **94**, 379--394
+.. [6] McConochie, J. D., T. A. Hardy, and L. B.  Mason (2004):  Modelling 
+       tropical cyclone over-water wind and pressure fields. *Ocean 
+       Engineering*, **31**, 1757--1782
+
+.. [7] Kepert, J. D. (2001): The Dynamics of Boundary Layer Jets 
+       within the Tropical Cyclone Core. Part I: Linear Theory.  
+       *J. Atmos. Sci.*, **58**, 2469--2484 
+.. [8] Hubbert, G. D., G. J. Holland, L. M. Leslie and M. J. Manton (1991): 
+       A Real-Time System for Forecasting Tropical Cyclone Storm Surges. 
+       *Weather and Forecasting*, **6**, 86--97
+
-- 
2.43.0


From 29987114ebbc92326fd19570695ad5b4620c353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:46 +0000
Subject: [PATCH 33/38] fix: read the units of the hazard data before closing
 the file

---
 PlotInterface/maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlotInterface/maps.py b/PlotInterface/maps.py
index ba2e924..bec79b2 100644
--- a/PlotInterface/maps.py
+++ b/PlotInterface/maps.py
@@ -628,6 +628,7 @@ def demo():
     ydata = ncobj.variables['lat'][:]
     tdata = ncobj.variables['ari'][:]
     vdata = ncobj.variables['wspd'][:]
+    units = ncobj.variables['wspd'].units
     ncobj.close()
     [xgrid, ygrid] = np.meshgrid(xdata, ydata)
     map_kwargs = dict(llcrnrlon=xdata.min(),
@@ -636,7 +637,7 @@ def demo():
                       urcrnrlat=ydata.max(),
                       projection='merc',
                       resolution='i')
-    cbarlab = "Wind speed (%s)" % ncobj.variables['wspd'].units
+    cbarlab = "Wind speed (%s)" % units
     lvls, exp = levels(np.max(vdata[8, :, :]))
 
     figure = MaskedContourMapFigure()
-- 
2.43.0


From 607990c0cce9cf525180965d043a65d85f718c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:34 +0000
Subject: [PATCH 34/38] fix: read station identifiers of a text file as text

---
 Utilities/timeseries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/timeseries.py b/Utilities/timeseries.py
index 087644d..1f0971e 100644
--- a/Utilities/timeseries.py
+++ b/Utilities/timeseries.py
@@ -17,7 +17,6 @@ from configparser import NoOptionError
 import numpy as np
 
 from Utilities.config import ConfigParser
-from Utilities.files import flLoadFile
 from Utilities.maputils import find_index
 from Utilities.dynarray import DynamicRecArray
 from .shptools import shpGetVertices
@@ -160,7 +159,8 @@ class Timeseries(object):
 
 
         else:
-            stndata = flLoadFile(stnFile, delimiter=',')
+            stndata = np.genfromtxt(stnFile, dtype=str, comments='%',
+                                    delimiter=',', ndmin=2)
             # If there are more than 3 columns, save the additional
             # columns as 'metadata'
             if stndata.shape[1] > 3:
-- 
2.43.0


From 1d301b325c02ae2520fec1d1c71cb842dcef2f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:37:42 +0000
Subject: [PATCH 35/38] fix: number the cell that contains a position in any
 domain

Domains across the equator or the prime meridian, fractional limits and
spacings, and widths that are not a multiple of the spacing gave the
number of another cell.
---
 Utilities/stats.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index 67b5cbe..2827eb4 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -12,7 +12,6 @@
 import sys
 import logging
 
-import math
 import numpy as np
 
 from .grid import grdRead
@@ -90,17 +89,16 @@ def getCellNum(lon, lat, gridLimit, gridSpace):
     """
     Return the cell number given longitude and latititude
     """
-    lon = int(math.floor(lon))
-    lat = int(math.ceil(lat))
-
     if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or
             lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):
         raise ValueError('Invalid input on cellNum: cell number is out of range')
 
-    j = abs((abs(lon) - abs(gridLimit['xMin']))) // abs(gridSpace['x'])
-    i = abs((abs(lat) - abs(gridLimit['yMax']))) // abs(gridSpace['y'])
+    lonCells = np.size(
+        np.arange(gridLimit['xMin'], gridLimit['xMax'], gridSpace['x']))
+    j = (lon - gridLimit['xMin']) // gridSpace['x']
+    i = (gridLimit['yMax'] - lat) // gridSpace['y']
 
-    return int(i * abs((gridLimit['xMax'] - gridLimit['xMin']) // gridSpace['x']) + j)
+    return int(i * lonCells + j)
 
 
 def getCellLonLat(cellNum, gridLimit, gridSpace):
-- 
2.43.0


From cce717f3cabe235088e152f14e36617c8cb3b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:42:37 +0000
Subject: [PATCH 36/38] fix: restore the line endings of the setup guide

The previous change to this file converted them by accident.
---
 docs/setup.rst | 1076 ++++++++++++++++++++++++------------------------
 1 file changed, 538 insertions(+), 538 deletions(-)

diff --git a/docs/setup.rst b/docs/setup.rst
index 7f63a25..9dd18f5 100644
--- a/docs/setup.rst
+++ b/docs/setup.rst
@@ -1,538 +1,538 @@
-.. |beta|   unicode:: U+003B2 .. GREEK SMALL LETTER BETA
-
-.. _modelsetup:
-
-====================
-Setting up the model
-====================
-
-Execution of TCRM is controlled by reading the simulation settings
-from a configuration file. The configuration file is a text file, and
-can be edited in any text editor (e.g. Notepad, Wordpad, vi, emacs,
-gedit). An example configuration file is provided in the examples
-folder to give users a starting point.
-
-
-.. _configurationfile:
-
-The configuration file
-======================
-
-The TCRM configuration file is divided into a series of sections, each
-with a set of option/value pairs. Most options have default values and
-may not need to be specified in the configuration file. One value that
-has no default is the Region gridLimit option. This defines the model
-domain and must be set in any configuration file used.
-
-.. _configureactions:
-
-Actions
--------
-
-This section defines which components of TCRM will be
-executed. The options are:
-
-* `DownloadData` - download input datasets (defaults are included)
-* `DataProcess` - process the input TC track database
-* `ExecuteStat` - calculate the TC statistics over the model domain
-* `ExecuteTrackGenerator` - generate a set of stochastic TC tracks
-* `ExecuteWindfield` - Calculate the wind field around a set of TC
-  tracks
-* `ExecuteHazard` - Calculate the return period wind speeds from a set
-  of wind field files
-* `PlotHazard` - Plot the return period wind speed maps and return
-  period curves for locations in the model domain
-* `PlotData` - Plot some basic statistical analyses of the input TC
-  track database
-* `ExecuteEvaluate` - Evaluate a set of stochastic TC tracks, comparing
-  to the input TC track database.
-
-All options are boolean (i.e. ``True`` or ``False``). ::
-
-    [Actions]
-    DataProcess = True
-    ExecuteStat = True
-    ExecuteTrackGenerator = True
-    ExecuteWindfield = True
-    ExecuteHazard = True
-    PlotHazard = True
-    PlotData = False
-    ExecuteEvaluate = False
-    CreateDatabase = True
-    DownloadData = True
-
-.. _configureregion:
-
-Region
-------
-
-This section defines the simulation domain and the size of the grid over
-which statistics are calculated. The simulation domain (``gridLimit``) is
-specified as a Python dict with keys of ``xMin``, ``xMax``, ``yMin``
-and ``yMax``. This sets the domain over which the wind fields and
-hazard will be calculated. Stochastic tracks are generated over a
-broader domain (called the "track domain"). The ``gridSpace`` option controls
-the size of the grid cells, which are used for calculating statistics. At this
-time, the values here must be integer values, but can be different in the ``x``
-(east-west) and ``y`` (north-south) directions. The ``gridInc`` option
-control the incremental increase in grid cell size when insufficient
-observations are located within a grid cell (see the :mod:`StatInterface`
-description)::
-
-    [Region]
-    gridLimit = {'xMin': 113.0, 'xMax': 124.0, 'yMin': -24.0, 'yMax': -13.0}
-    gridSpace = {'x':1.0,'y':1.0} 
-    gridInc = {'x':1.0,'y':0.5}
-
-.. _configuredataprocess:
-
-DataProcess
------------
-
-This section controls aspects of the processing of the input track
-database. Firstly, the ``InputFile`` option specifies the file to be
-processed. A relative or absolute path can be used. If no path name is
-included (as in the example below), then TCRM assumes the file is
-stored in the ``input`` path. If using an automatically
-downloaded dataset, then this file name must match the name
-specified in the appropriate dataset section (which is named by the
-``Source`` option in this section) of the configuration file (further
-details below).
-
-The ``Source`` option is a string value that acts as a pointer to a
-subsequent section in the configuration file, that holds details of
-the input track file structure. The additional section must have the same label
-as set here (the label is case-sensitive).
-
-The ``StartSeason`` and ``FilterSeason`` options control what years of
-the input track database are used in calibrating the model. In the
-default case, only data from 1981 onwards is used for model
-calibration. If ``FilterSeasons = False``, no season filtering is
-performed and the full input track database is used. ::
-
-    [DataProcess]
-    InputFile = ibtracs.since1980.list.v04r00.csv
-    StartSeason = 1981
-    FilterSeasons = True
-    Source = IBTRACS
-
-.. _configurestatinterface:
-
-StatInterface
--------------
-
-The ``StatInterface`` section controls the methods used to calculate
-distributions of TC parameters from the input track database.
-
-``kdeType`` specifies the kernel used in the kernel
-density estimation method for creating probability density functions
-that are used in selecting initial values for the stochastic TC events
-(e.g. longitude, latitude, initial pressure, speed and
-bearing). ``kdeStep`` defines the increment in the generated
-probability density functions and cumulative distribution functions.
-
-Options for ``kdeType`` ::
-    'gau'
-    'epa'
-    'uni'
-    'tri'
-    'biw'
-    'triw'
-    'cos'
-    'cos2'
-
-
-``kde2DType`` is deprecated.
-
-``minSamplesCell`` sets the minimum number of valid observations in
-each grid cell that are required for calculating the distributions,
-variances and autocorrelations used in the :mod:`TrackGenerator`
-module. If there are insufficient valid observations, then the bounds
-of the grid cell are incrementally increased (in steps as specified by
-the ``gridInc`` values) until sufficient observations are found. ::
-
-    [StatInterface]
-    kdeType = gau
-    kde2DType = gau
-    kdeStep = 0.2
-    minSamplesCell = 100
-
-.. _configuretrackgenerator:
-
-TrackGenerator
---------------
-
-The ``TrackGenerator`` section controls the stochastic track
-generation module. It is here that users can control the number of
-events and the number of years generated.
-
-The ``NumSimulations`` option sets the number of TC event sets that
-will be generated. Any integer number of events (up to 1,000,000) is
-possible. ``YearsPerSimulation`` sets the number of simulated years
-that will be generated for each event set. For evaluating hazard, the
-value should be set to 1, as the extreme value distribution fitting
-process assumes annual maxima. The annual frequency of events is based
-on a Poisson distribution around the mean annual frequency, which is
-determined from the input track database.
-
-For track model evaluations, it is recommended to set
-``YearsPerSimulation`` to a similar number to the number of years in
-the input track database. For example, in our testing that used data
-from 1981--2013, we set the value to 30.
-
-``NumTimeSteps`` controls the maximum lifetime an event can exist
-for. ``TimeStep`` sets the time interval (in hours) for the track
-generator. 
-
-``SeasonSeed`` and ``TrackSeed`` are used to fix the random
-number generator on parallel systems to ensure truly random numbers on
-each individual processor. If they are absent, the seed is set using an integer
-representation of the current time, and is recorded in the output metadata (e.g.
-attributes in the netcdf files). ::
-
-    [TrackGenerator]
-    NumSimulations = 500
-    YearsPerSimulation = 1
-    NumTimeSteps = 360
-    TimeStep = 1.0
-    SeasonSeed = 1
-    TrackSeed = 1
-
-This example will generate 500 realisations of one year of TC activity, with
-hourly timesteps to a maximum of 360 hours. 
-
-
-.. _configurewindfield:
-
-WindfieldInterface
-------------------
-
-The ``WindfieldInterface`` section controls how the wind fields from
-each track in the simulated tracks are calculated. There are two main
-components to the wind field -- the radial profile and the boundary
-layer model.
-
-The ``profileType`` option sets the radial profile used. Valid values are:
-
-* ``holland`` -- the radial profile of Holland (1980) [1]_
-* ``powell`` -- Similar to the Holland profile, but uses a variable
-  beta parameter that is a function of latitude and size. [2]_
-* ``schloemer`` -- From Schloemer (1954) -- essentially the Holland
-  profile with a beta value of 1 [3]_
-* ``willoughby`` -- From Willoughby and Rahn (2004). Again, the
-  Holland profile, with beta a function of the maximum wind speed,
-  radius to maximum wind and latitude [4]_
-* ``jelesnianski`` -- From Jelesnianski (1966). [5]_
-* ``doubleHolland`` -- A double exponential profile from McConochie
-  *et al.* (2004) [6]_
-
-The ``windFieldType`` value selects the boundary layer model
-used. Three boundary layer models have been implemented:
-
-* ``kepert`` -- the linearised boundary layer model of Kepert (2001)
-  [7]_
-* ``hubbert`` -- a vector addition of forward speed and tangential
-  wind speed from Hubbert *et al.* (1994) [8]_
-* ``mcconochie`` -- a second vector addition model, from McConochie
-  *et al.* (2004) [6]_
-
-The ``beta`` option specifies the |beta| parameter used in the Holland
-wind profile. The additional |beta| options (``beta1`` and ``beta2``)
-are used in the ``doubleHolland`` wind profile, which is a double
-exponential profile, therefore requiring two |beta| parameters.
-
-``thetaMax`` is used in the McConochie and Hubbert boundary layer
-models to specify the azimuthal location of the maximum wind speed
-under the translating storm.
-
-``Margin`` defines the spatial extent over which the wind field is
-calculated and is in units of degrees. A margin of 5 is recommended
-for hazard models, to ensure low wind speeds from distant TCs are
-incorporated into the fitting procedure.
-
-``Resolution`` is the horizontal resolution (in degrees) of the wind
-fields. Values should be no larger than 0.05 degrees, as the absolute
-peak of the radial profile may not be adequately resolved, leading to
-an underestimation of the maximum wind speeds. 
-
-``Domain`` is an alternative to setting ``Margin``. If set to "bounded"
-(default), the wind field domain will be determined by the ``Margin`` option. 
-If set to "full", the wind field domain will be set to match ``Region -
-gridLimit``. 
-
-*If this option is chosen, the execution time will be significantly
-longer. Recommended for single scenarios only*. ::
-
-    [WindfieldInterface]
-    profileType = holland
-    windFieldType = kepert
-    beta = 1.3
-    beta1 = 1.3
-    beta2 = 1.3
-    thetaMax = 70.0
-    Margin = 2
-    Resolution = 0.05
-    Domain = bounded
-
-.. _configurehazard:
-
-Hazard
-------
-
-The ``Hazard`` section controls how the model calculates average recurrence
-(ARI) wind speeds, and whether to calculate confidence ranges.
-
-``ExtremeValueDistribution`` sets the method for calculating ARI wind speeds.
-Options are "emp" (empirical), "power" (power law), "GPD" (Generalised pareto
-distribution) or "GEV" (Generalised Extreme Value distribution). 
-
-The ``Years`` option is a comma separated list of integer values that
-specifies the return periods for which wind speeds will be
-calculated. For ``ExtremeValueDistribution = emp``, the years cannot exceed the
-total number of simulated years in the ``TrackGenerator`` options. 
-
-``MinimumRecords`` sets the minimum number of values
-required for performing the fitting procedure at a given grid point.
-
-``CalculateCI`` sets whether the :mod:`hazard` module will calculate
-confidence ranges using a bootstrap resampling method. If ``True``,
-the module will run the fitting process multiple times and calculate
-upper and lower percentile values of the resulting return period wind
-speeds. The ``PercentileRange`` option sets the range -- for a value
-of 90, the module will calculatae the 5th and 95th percentile
-values. ``SampleSize`` sets the number of randomly selected values
-that will be used in each realisation of the extreme value fitting
-procedure for calculating the confidence range. 
-
-``SmoothPlots`` will apply a gaussian filter to the data before plotting on maps
-to minimise the inference of lines on maps. This may cause the maps to have
-large areas of no data due to the filtering function. ::
-
-    [Hazard]
-    ExtremeValueDistribution = emp
-    Years = 2,5,10,20,25,50,100,200,250,500,1000
-    MinimumRecords = 50
-    CalculateCI = True
-    PercentileRange = 90
-    SampleSize = 50
-    PlotSpeedUnits = mps
-    SmoothPlots = True
-
-.. _configureimpact:
-
-Impact
-------
-
-``tcevent.py`` calculates the impact of an event when ``ExecuteImpact`` is set
-to ``True`` in the ``Actions`` section. In that case the ``Exposure`` option has
-no default and must be set to the path of the exposure data. ::
-
-    [Impact]
-    Exposure = ./input/exposure.csv
-
-.. _configurermw:
-
-RMW
-----
-
-The ``RMW`` section contains a single option: ``GetRMWDistFromInputData``. 
-Set this value to ``True`` if the input track database has reliable data 
-on the radius to maximum winds. 
-
-If no suitable data exists (``GetRMWDistFromInputData = False``), TCRM will use
-a regression model to determine RMW from the intensity and latitude of the
-storm. ::
-
-    [RMW]
-    GetRMWDistFromInputData = False
-
-.. _configureinput:
-
-Input
------
-
-The ``Input`` section sets the source of some supplementary data, as
-well as the datasets to be automatically downloaded. The ``LandMask``
-option specifies the path to a netcdf file (supplied) that contains a
-land/sea mask. The ``MSLPFile`` option specifies the path to a netcdf
-file (downloaded) that contains daily long-term mean sea level
-pressure data (e.g. from a NCEP/NCAR reanalysis products). The 
-``LocationFile`` option specifies the path to a point shape file that contains
-the longitude and latitude of locations for which to extract hazard information
-at the conclusion of a simulation.
-
-The ``Datasest`` option is a comma separated list of values indicating
-the data that should be downloaded on first execution. For each value
-in the list, there must be a corresponding section in the
-configuration file, that has options of ``URL`` (the URL of the data
-to be downloaded), ``path`` (where to store the data once it has been
-downloaded) and ``filename`` (the filename to give to the data once
-downloaded).
-
-In the example below, for the ``IBTRACS`` dataset, there are
-additional options that describe the format of the track database with
-the same name.  This is a legitimate approach, so long as there are no
-duplicate options.
-
-Note that the ``filename`` option in the ``IBTRACS`` section matches
-the ``InputFile`` option in the ``DataProcess`` section, and the
-``filename`` in the ``LTMSLP`` section matches the ``MSLPFile`` in the
-``Input`` section.
-
-The ``CoastlineGates`` option specifies the path to a comma-delimited
-text file that holds the points of a series of coastline gates that
-are used in the :mod:`Evaluate.landfallRates` module. ::
-
-    [Input]
-    LocationFile = input/stationlist.shp
-    LandMask = input/landmask.nc
-    MSLPFile = MSLP/slp.day.ltm.nc
-    Datasets = IBTRACS,LTMSLP
-    CoastlineGates = input/gates.csv
-
-    [IBTRACS]
-    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
-    path = input
-    Filename = ibtracs.since1980.list.v04r00.csv
-    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
-    FieldDelimiter = ,
-    NumberOfHeadingLines = 2
-    PressureUnits = hPa
-    LengthUnits = km
-    SpeedUnits = kph
-    DateFormat = %Y-%m-%d %H:%M:%S
-
-    [LTMSLP]
-    URL = ftp://ftp.cdc.noaa.gov/Datasets/ncep.reanalysis.derived/surface/slp.day.1981-2010.ltm.nc
-    path = MSLP
-    filename = slp.day.ltm.nc
-
-.. _configureoutput:
-
-Output
-------
-
-The ``Output`` section defines the destination of the model output. Set the 
-``Path`` option to the directory where you wish to store the data. Paths can 
-be relative or absolute. By default, output is stored in a subdirectory of 
-the working directory named ``output``. ::
-
-    [Output]
-    Path = output
-
-.. _configurelogging:
-
-Logging
--------
-
-The ``Logging`` section controls how the model records progress to
-file (and optionally STDOUT). ``LogFile`` option specifies the name of
-the log file. If no path is given, then the log file will be stored in
-the current working directory. For parallel execution, a separate log
-file is created for each thread, with the rank of the process appended
-to the name of the file.
-
-The ``LogLevel`` is one of the :mod:`Logging` `levels
-<https://docs.python.org/2/library/logging.html#logging-levels>`_. Default
-is ``INFO``. 
-
-The ``Verbose`` option allows users to print all logging
-messages to the standard output (default False). This can be useful when attempting to
-identify problems with execution. For parallel execution, this is set
-to ``False`` (to prevent repeated messages being printed to the
-screen). 
-
-Setting the ``ProgressBar`` option to ``True`` will display a
-simple progress bar on the screen to indicate the status of the model
-execution (default False). This will be turned off if TCRM is executed on a parallel
-system, or if it is run in batch mode. 
-
-If ``Datestamp = True``, a timestamp will be included in the filename for the
-log file (default False). ::
-
-    [Logging]
-    LogFile = main.log
-    LogLevel = INFO
-    Verbose = False
-    ProgressBar = False
-    Datestamp = False
-
-.. _configuresource:
-
-Source format options
----------------------
-
-For the input data source specified in the :menuselection:`DataProcess --> Source`
-option, there must be a corresponding section of the given name. In
-this example case, the source is specified as ``IBTRACS`` (the same as
-one of the ``Dataset`` options). The ``IBTRACS`` section therefore
-controls both the download dataset options, and specifies the textural
-format of the input track database.
-
-The options that relate to the dataset download are ``URL``, ``path``
-and ``filename``. ``URL`` specifies the location of the data to be
-downloaded. The ``path`` option specifies the path name for the
-storage location of the dataset. The ``filename`` option gives the
-name of the file to be saved (this can be different from the name of
-the dataset).
-
-The remaining options relate to the format of the track
-database. ``Columns`` is a comma-separated list of the column names in
-the input database. If a column is to be ignored, it should be named
-``skip``. The ``FieldDelimiter`` is the delimiter used in the input
-track database (it's assumed that the input file is a text format
-file!). The ``NumberOfHeadingLines`` indicates the number of text
-lines at the top of the file that should be ignored (usually this is
-column headers -- due to the multiple lines used in some track
-databases, TCRM does not attempt to decipher the column names from the
-header. ``PressureUnits``, ``LengthUnits`` and ``SpeedUnits`` specify
-the units the numerical values of pressure, distance and speed
-(respectively) used in the input track database. The ``DateFormat``
-option is a string represenation of the date format used in the track
-database. The format should use Python's `datetime
-<https://docs.python.org/2/library/datetime.html#strftime-and-strptime-behavior>`_
-formats.  ::
-
-    [IBTRACS]
-    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
-    path = input
-    Filename = ibtracs.since1980.list.v04r00.csv
-    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
-    FieldDelimiter = ,
-    NumberOfHeadingLines = 2
-    PressureUnits = hPa
-    LengthUnits = km
-    SpeedUnits = kph
-    DateFormat = %Y-%m-%d %H:%M:%S
- 
-.. _references:
-
-References
-----------
-
-.. [1] Holland, G. J. (1980): An Analytic Model of the Wind and Pressure 
-       Profiles in Hurricanes. *Monthly Weather Review*, **108**
-.. [2] Powell, M., G. Soukup, S. Cocke, S. Gulati, N. Morisseau-Leroy, S. 
-       Hamid, N. Dorst, and L. Axe (2005): State of Florida hurricane loss 
-       projection model: Atmospheric science component. *Journal of Wind 
-       Engineering and Industrial Aerodynamics*, **93**, 651--674
-.. [3] Schloemer, R. W. (1954): Analysis and synthesis of hurricane wind 
-       patterns over Lake Okeechobee. *NOAA Hydrometeorology Report* **31**, 
-       1954
-.. [4] Willoughby, H. E. and M. E. Rahn (2004): Parametric Representation 
-       of the Primary Hurricane Vortex. Part I: Observations and 
-       Evaluation of the Holland (1980) Model. *Monthly Weather Review*, 
-       **132**, 3033--3048
-.. [5] Jelesnianski, C. P. (1966): Numerical Computations of Storm Surges 
-       without Bottom Stress. *Monthly Weather Review*, **94**, 379--394
-.. [6] McConochie, J. D., T. A. Hardy, and L. B.  Mason (2004):  Modelling 
-       tropical cyclone over-water wind and pressure fields. *Ocean 
-       Engineering*, **31**, 1757--1782
-
-.. [7] Kepert, J. D. (2001): The Dynamics of Boundary Layer Jets 
-       within the Tropical Cyclone Core. Part I: Linear Theory.  
-       *J. Atmos. Sci.*, **58**, 2469--2484 
-.. [8] Hubbert, G. D., G. J. Holland, L. M. Leslie and M. J. Manton (1991): 
-       A Real-Time System for Forecasting Tropical Cyclone Storm Surges. 
-       *Weather and Forecasting*, **6**, 86--97
-
+.. |beta|   unicode:: U+003B2 .. GREEK SMALL LETTER BETA
+
+.. _modelsetup:
+
+====================
+Setting up the model
+====================
+
+Execution of TCRM is controlled by reading the simulation settings
+from a configuration file. The configuration file is a text file, and
+can be edited in any text editor (e.g. Notepad, Wordpad, vi, emacs,
+gedit). An example configuration file is provided in the examples
+folder to give users a starting point.
+
+
+.. _configurationfile:
+
+The configuration file
+======================
+
+The TCRM configuration file is divided into a series of sections, each
+with a set of option/value pairs. Most options have default values and
+may not need to be specified in the configuration file. One value that
+has no default is the Region gridLimit option. This defines the model
+domain and must be set in any configuration file used.
+
+.. _configureactions:
+
+Actions
+-------
+
+This section defines which components of TCRM will be
+executed. The options are:
+
+* `DownloadData` - download input datasets (defaults are included)
+* `DataProcess` - process the input TC track database
+* `ExecuteStat` - calculate the TC statistics over the model domain
+* `ExecuteTrackGenerator` - generate a set of stochastic TC tracks
+* `ExecuteWindfield` - Calculate the wind field around a set of TC
+  tracks
+* `ExecuteHazard` - Calculate the return period wind speeds from a set
+  of wind field files
+* `PlotHazard` - Plot the return period wind speed maps and return
+  period curves for locations in the model domain
+* `PlotData` - Plot some basic statistical analyses of the input TC
+  track database
+* `ExecuteEvaluate` - Evaluate a set of stochastic TC tracks, comparing
+  to the input TC track database.
+
+All options are boolean (i.e. ``True`` or ``False``). ::
+
+    [Actions]
+    DataProcess = True
+    ExecuteStat = True
+    ExecuteTrackGenerator = True
+    ExecuteWindfield = True
+    ExecuteHazard = True
+    PlotHazard = True
+    PlotData = False
+    ExecuteEvaluate = False
+    CreateDatabase = True
+    DownloadData = True
+
+.. _configureregion:
+
+Region
+------
+
+This section defines the simulation domain and the size of the grid over
+which statistics are calculated. The simulation domain (``gridLimit``) is
+specified as a Python dict with keys of ``xMin``, ``xMax``, ``yMin``
+and ``yMax``. This sets the domain over which the wind fields and
+hazard will be calculated. Stochastic tracks are generated over a
+broader domain (called the "track domain"). The ``gridSpace`` option controls
+the size of the grid cells, which are used for calculating statistics. At this
+time, the values here must be integer values, but can be different in the ``x``
+(east-west) and ``y`` (north-south) directions. The ``gridInc`` option
+control the incremental increase in grid cell size when insufficient
+observations are located within a grid cell (see the :mod:`StatInterface`
+description)::
+
+    [Region]
+    gridLimit = {'xMin': 113.0, 'xMax': 124.0, 'yMin': -24.0, 'yMax': -13.0}
+    gridSpace = {'x':1.0,'y':1.0} 
+    gridInc = {'x':1.0,'y':0.5}
+
+.. _configuredataprocess:
+
+DataProcess
+-----------
+
+This section controls aspects of the processing of the input track
+database. Firstly, the ``InputFile`` option specifies the file to be
+processed. A relative or absolute path can be used. If no path name is
+included (as in the example below), then TCRM assumes the file is
+stored in the ``input`` path. If using an automatically
+downloaded dataset, then this file name must match the name
+specified in the appropriate dataset section (which is named by the
+``Source`` option in this section) of the configuration file (further
+details below).
+
+The ``Source`` option is a string value that acts as a pointer to a
+subsequent section in the configuration file, that holds details of
+the input track file structure. The additional section must have the same label
+as set here (the label is case-sensitive).
+
+The ``StartSeason`` and ``FilterSeason`` options control what years of
+the input track database are used in calibrating the model. In the
+default case, only data from 1981 onwards is used for model
+calibration. If ``FilterSeasons = False``, no season filtering is
+performed and the full input track database is used. ::
+
+    [DataProcess]
+    InputFile = ibtracs.since1980.list.v04r00.csv
+    StartSeason = 1981
+    FilterSeasons = True
+    Source = IBTRACS
+
+.. _configurestatinterface:
+
+StatInterface
+-------------
+
+The ``StatInterface`` section controls the methods used to calculate
+distributions of TC parameters from the input track database.
+
+``kdeType`` specifies the kernel used in the kernel
+density estimation method for creating probability density functions
+that are used in selecting initial values for the stochastic TC events
+(e.g. longitude, latitude, initial pressure, speed and
+bearing). ``kdeStep`` defines the increment in the generated
+probability density functions and cumulative distribution functions.
+
+Options for ``kdeType`` ::
+    'gau'
+    'epa'
+    'uni'
+    'tri'
+    'biw'
+    'triw'
+    'cos'
+    'cos2'
+
+
+``kde2DType`` is deprecated.
+
+``minSamplesCell`` sets the minimum number of valid observations in
+each grid cell that are required for calculating the distributions,
+variances and autocorrelations used in the :mod:`TrackGenerator`
+module. If there are insufficient valid observations, then the bounds
+of the grid cell are incrementally increased (in steps as specified by
+the ``gridInc`` values) until sufficient observations are found. ::
+
+    [StatInterface]
+    kdeType = gau
+    kde2DType = gau
+    kdeStep = 0.2
+    minSamplesCell = 100
+
+.. _configuretrackgenerator:
+
+TrackGenerator
+--------------
+
+The ``TrackGenerator`` section controls the stochastic track
+generation module. It is here that users can control the number of
+events and the number of years generated.
+
+The ``NumSimulations`` option sets the number of TC event sets that
+will be generated. Any integer number of events (up to 1,000,000) is
+possible. ``YearsPerSimulation`` sets the number of simulated years
+that will be generated for each event set. For evaluating hazard, the
+value should be set to 1, as the extreme value distribution fitting
+process assumes annual maxima. The annual frequency of events is based
+on a Poisson distribution around the mean annual frequency, which is
+determined from the input track database.
+
+For track model evaluations, it is recommended to set
+``YearsPerSimulation`` to a similar number to the number of years in
+the input track database. For example, in our testing that used data
+from 1981--2013, we set the value to 30.
+
+``NumTimeSteps`` controls the maximum lifetime an event can exist
+for. ``TimeStep`` sets the time interval (in hours) for the track
+generator. 
+
+``SeasonSeed`` and ``TrackSeed`` are used to fix the random
+number generator on parallel systems to ensure truly random numbers on
+each individual processor. If they are absent, the seed is set using an integer
+representation of the current time, and is recorded in the output metadata (e.g.
+attributes in the netcdf files). ::
+
+    [TrackGenerator]
+    NumSimulations = 500
+    YearsPerSimulation = 1
+    NumTimeSteps = 360
+    TimeStep = 1.0
+    SeasonSeed = 1
+    TrackSeed = 1
+
+This example will generate 500 realisations of one year of TC activity, with
+hourly timesteps to a maximum of 360 hours. 
+
+
+.. _configurewindfield:
+
+WindfieldInterface
+------------------
+
+The ``WindfieldInterface`` section controls how the wind fields from
+each track in the simulated tracks are calculated. There are two main
+components to the wind field -- the radial profile and the boundary
+layer model.
+
+The ``profileType`` option sets the radial profile used. Valid values are:
+
+* ``holland`` -- the radial profile of Holland (1980) [1]_
+* ``powell`` -- Similar to the Holland profile, but uses a variable
+  beta parameter that is a function of latitude and size. [2]_
+* ``schloemer`` -- From Schloemer (1954) -- essentially the Holland
+  profile with a beta value of 1 [3]_
+* ``willoughby`` -- From Willoughby and Rahn (2004). Again, the
+  Holland profile, with beta a function of the maximum wind speed,
+  radius to maximum wind and latitude [4]_
+* ``jelesnianski`` -- From Jelesnianski (1966). [5]_
+* ``doubleHolland`` -- A double exponential profile from McConochie
+  *et al.* (2004) [6]_
+
+The ``windFieldType`` value selects the boundary layer model
+used. Three boundary layer models have been implemented:
+
+* ``kepert`` -- the linearised boundary layer model of Kepert (2001)
+  [7]_
+* ``hubbert`` -- a vector addition of forward speed and tangential
+  wind speed from Hubbert *et al.* (1994) [8]_
+* ``mcconochie`` -- a second vector addition model, from McConochie
+  *et al.* (2004) [6]_
+
+The ``beta`` option specifies the |beta| parameter used in the Holland
+wind profile. The additional |beta| options (``beta1`` and ``beta2``)
+are used in the ``doubleHolland`` wind profile, which is a double
+exponential profile, therefore requiring two |beta| parameters.
+
+``thetaMax`` is used in the McConochie and Hubbert boundary layer
+models to specify the azimuthal location of the maximum wind speed
+under the translating storm.
+
+``Margin`` defines the spatial extent over which the wind field is
+calculated and is in units of degrees. A margin of 5 is recommended
+for hazard models, to ensure low wind speeds from distant TCs are
+incorporated into the fitting procedure.
+
+``Resolution`` is the horizontal resolution (in degrees) of the wind
+fields. Values should be no larger than 0.05 degrees, as the absolute
+peak of the radial profile may not be adequately resolved, leading to
+an underestimation of the maximum wind speeds. 
+
+``Domain`` is an alternative to setting ``Margin``. If set to "bounded"
+(default), the wind field domain will be determined by the ``Margin`` option. 
+If set to "full", the wind field domain will be set to match ``Region -
+gridLimit``. 
+
+*If this option is chosen, the execution time will be significantly
+longer. Recommended for single scenarios only*. ::
+
+    [WindfieldInterface]
+    profileType = holland
+    windFieldType = kepert
+    beta = 1.3
+    beta1 = 1.3
+    beta2 = 1.3
+    thetaMax = 70.0
+    Margin = 2
+    Resolution = 0.05
+    Domain = bounded
+
+.. _configurehazard:
+
+Hazard
+------
+
+The ``Hazard`` section controls how the model calculates average recurrence
+(ARI) wind speeds, and whether to calculate confidence ranges.
+
+``ExtremeValueDistribution`` sets the method for calculating ARI wind speeds.
+Options are "emp" (empirical), "power" (power law), "GPD" (Generalised pareto
+distribution) or "GEV" (Generalised Extreme Value distribution). 
+
+The ``Years`` option is a comma separated list of integer values that
+specifies the return periods for which wind speeds will be
+calculated. For ``ExtremeValueDistribution = emp``, the years cannot exceed the
+total number of simulated years in the ``TrackGenerator`` options. 
+
+``MinimumRecords`` sets the minimum number of values
+required for performing the fitting procedure at a given grid point.
+
+``CalculateCI`` sets whether the :mod:`hazard` module will calculate
+confidence ranges using a bootstrap resampling method. If ``True``,
+the module will run the fitting process multiple times and calculate
+upper and lower percentile values of the resulting return period wind
+speeds. The ``PercentileRange`` option sets the range -- for a value
+of 90, the module will calculatae the 5th and 95th percentile
+values. ``SampleSize`` sets the number of randomly selected values
+that will be used in each realisation of the extreme value fitting
+procedure for calculating the confidence range. 
+
+``SmoothPlots`` will apply a gaussian filter to the data before plotting on maps
+to minimise the inference of lines on maps. This may cause the maps to have
+large areas of no data due to the filtering function. ::
+
+    [Hazard]
+    ExtremeValueDistribution = emp
+    Years = 2,5,10,20,25,50,100,200,250,500,1000
+    MinimumRecords = 50
+    CalculateCI = True
+    PercentileRange = 90
+    SampleSize = 50
+    PlotSpeedUnits = mps
+    SmoothPlots = True
+
+.. _configureimpact:
+
+Impact
+------
+
+``tcevent.py`` calculates the impact of an event when ``ExecuteImpact`` is set
+to ``True`` in the ``Actions`` section. In that case the ``Exposure`` option has
+no default and must be set to the path of the exposure data. ::
+
+    [Impact]
+    Exposure = ./input/exposure.csv
+
+.. _configurermw:
+
+RMW
+----
+
+The ``RMW`` section contains a single option: ``GetRMWDistFromInputData``. 
+Set this value to ``True`` if the input track database has reliable data 
+on the radius to maximum winds. 
+
+If no suitable data exists (``GetRMWDistFromInputData = False``), TCRM will use
+a regression model to determine RMW from the intensity and latitude of the
+storm. ::
+
+    [RMW]
+    GetRMWDistFromInputData = False
+
+.. _configureinput:
+
+Input
+-----
+
+The ``Input`` section sets the source of some supplementary data, as
+well as the datasets to be automatically downloaded. The ``LandMask``
+option specifies the path to a netcdf file (supplied) that contains a
+land/sea mask. The ``MSLPFile`` option specifies the path to a netcdf
+file (downloaded) that contains daily long-term mean sea level
+pressure data (e.g. from a NCEP/NCAR reanalysis products). The 
+``LocationFile`` option specifies the path to a point shape file that contains
+the longitude and latitude of locations for which to extract hazard information
+at the conclusion of a simulation.
+
+The ``Datasest`` option is a comma separated list of values indicating
+the data that should be downloaded on first execution. For each value
+in the list, there must be a corresponding section in the
+configuration file, that has options of ``URL`` (the URL of the data
+to be downloaded), ``path`` (where to store the data once it has been
+downloaded) and ``filename`` (the filename to give to the data once
+downloaded).
+
+In the example below, for the ``IBTRACS`` dataset, there are
+additional options that describe the format of the track database with
+the same name.  This is a legitimate approach, so long as there are no
+duplicate options.
+
+Note that the ``filename`` option in the ``IBTRACS`` section matches
+the ``InputFile`` option in the ``DataProcess`` section, and the
+``filename`` in the ``LTMSLP`` section matches the ``MSLPFile`` in the
+``Input`` section.
+
+The ``CoastlineGates`` option specifies the path to a comma-delimited
+text file that holds the points of a series of coastline gates that
+are used in the :mod:`Evaluate.landfallRates` module. ::
+
+    [Input]
+    LocationFile = input/stationlist.shp
+    LandMask = input/landmask.nc
+    MSLPFile = MSLP/slp.day.ltm.nc
+    Datasets = IBTRACS,LTMSLP
+    CoastlineGates = input/gates.csv
+
+    [IBTRACS]
+    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
+    path = input
+    Filename = ibtracs.since1980.list.v04r00.csv
+    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
+    FieldDelimiter = ,
+    NumberOfHeadingLines = 2
+    PressureUnits = hPa
+    LengthUnits = km
+    SpeedUnits = kph
+    DateFormat = %Y-%m-%d %H:%M:%S
+
+    [LTMSLP]
+    URL = ftp://ftp.cdc.noaa.gov/Datasets/ncep.reanalysis.derived/surface/slp.day.1981-2010.ltm.nc
+    path = MSLP
+    filename = slp.day.ltm.nc
+
+.. _configureoutput:
+
+Output
+------
+
+The ``Output`` section defines the destination of the model output. Set the 
+``Path`` option to the directory where you wish to store the data. Paths can 
+be relative or absolute. By default, output is stored in a subdirectory of 
+the working directory named ``output``. ::
+
+    [Output]
+    Path = output
+
+.. _configurelogging:
+
+Logging
+-------
+
+The ``Logging`` section controls how the model records progress to
+file (and optionally STDOUT). ``LogFile`` option specifies the name of
+the log file. If no path is given, then the log file will be stored in
+the current working directory. For parallel execution, a separate log
+file is created for each thread, with the rank of the process appended
+to the name of the file.
+
+The ``LogLevel`` is one of the :mod:`Logging` `levels
+<https://docs.python.org/2/library/logging.html#logging-levels>`_. Default
+is ``INFO``. 
+
+The ``Verbose`` option allows users to print all logging
+messages to the standard output (default False). This can be useful when attempting to
+identify problems with execution. For parallel execution, this is set
+to ``False`` (to prevent repeated messages being printed to the
+screen). 
+
+Setting the ``ProgressBar`` option to ``True`` will display a
+simple progress bar on the screen to indicate the status of the model
+execution (default False). This will be turned off if TCRM is executed on a parallel
+system, or if it is run in batch mode. 
+
+If ``Datestamp = True``, a timestamp will be included in the filename for the
+log file (default False). ::
+
+    [Logging]
+    LogFile = main.log
+    LogLevel = INFO
+    Verbose = False
+    ProgressBar = False
+    Datestamp = False
+
+.. _configuresource:
+
+Source format options
+---------------------
+
+For the input data source specified in the :menuselection:`DataProcess --> Source`
+option, there must be a corresponding section of the given name. In
+this example case, the source is specified as ``IBTRACS`` (the same as
+one of the ``Dataset`` options). The ``IBTRACS`` section therefore
+controls both the download dataset options, and specifies the textural
+format of the input track database.
+
+The options that relate to the dataset download are ``URL``, ``path``
+and ``filename``. ``URL`` specifies the location of the data to be
+downloaded. The ``path`` option specifies the path name for the
+storage location of the dataset. The ``filename`` option gives the
+name of the file to be saved (this can be different from the name of
+the dataset).
+
+The remaining options relate to the format of the track
+database. ``Columns`` is a comma-separated list of the column names in
+the input database. If a column is to be ignored, it should be named
+``skip``. The ``FieldDelimiter`` is the delimiter used in the input
+track database (it's assumed that the input file is a text format
+file!). The ``NumberOfHeadingLines`` indicates the number of text
+lines at the top of the file that should be ignored (usually this is
+column headers -- due to the multiple lines used in some track
+databases, TCRM does not attempt to decipher the column names from the
+header. ``PressureUnits``, ``LengthUnits`` and ``SpeedUnits`` specify
+the units the numerical values of pressure, distance and speed
+(respectively) used in the input track database. The ``DateFormat``
+option is a string represenation of the date format used in the track
+database. The format should use Python's `datetime
+<https://docs.python.org/2/library/datetime.html#strftime-and-strptime-behavior>`_
+formats.  ::
+
+    [IBTRACS]
+    URL = https://www.ncei.noaa.gov/data/international-best-track-archive-for-climate-stewardship-ibtracs/v04r00/access/csv/ibtracs.since1980.list.v04r00.csv
+    path = input
+    Filename = ibtracs.since1980.list.v04r00.csv
+    Columns = tcserialno,season,num,skip,skip,skip,date,skip,lat,lon,skip,pressure
+    FieldDelimiter = ,
+    NumberOfHeadingLines = 2
+    PressureUnits = hPa
+    LengthUnits = km
+    SpeedUnits = kph
+    DateFormat = %Y-%m-%d %H:%M:%S
+ 
+.. _references:
+
+References
+----------
+
+.. [1] Holland, G. J. (1980): An Analytic Model of the Wind and Pressure 
+       Profiles in Hurricanes. *Monthly Weather Review*, **108**
+.. [2] Powell, M., G. Soukup, S. Cocke, S. Gulati, N. Morisseau-Leroy, S. 
+       Hamid, N. Dorst, and L. Axe (2005): State of Florida hurricane loss 
+       projection model: Atmospheric science component. *Journal of Wind 
+       Engineering and Industrial Aerodynamics*, **93**, 651--674
+.. [3] Schloemer, R. W. (1954): Analysis and synthesis of hurricane wind 
+       patterns over Lake Okeechobee. *NOAA Hydrometeorology Report* **31**, 
+       1954
+.. [4] Willoughby, H. E. and M. E. Rahn (2004): Parametric Representation 
+       of the Primary Hurricane Vortex. Part I: Observations and 
+       Evaluation of the Holland (1980) Model. *Monthly Weather Review*, 
+       **132**, 3033--3048
+.. [5] Jelesnianski, C. P. (1966): Numerical Computations of Storm Surges 
+       without Bottom Stress. *Monthly Weather Review*, **94**, 379--394
+.. [6] McConochie, J. D., T. A. Hardy, and L. B.  Mason (2004):  Modelling 
+       tropical cyclone over-water wind and pressure fields. *Ocean 
+       Engineering*, **31**, 1757--1782
+
+.. [7] Kepert, J. D. (2001): The Dynamics of Boundary Layer Jets 
+       within the Tropical Cyclone Core. Part I: Linear Theory.  
+       *J. Atmos. Sci.*, **58**, 2469--2484 
+.. [8] Hubbert, G. D., G. J. Holland, L. M. Leslie and M. J. Manton (1991): 
+       A Real-Time System for Forecasting Tropical Cyclone Storm Surges. 
+       *Weather and Forecasting*, **6**, 86--97
+
-- 
2.43.0


From 181aeb8fc1243e1f031331aa9a9eecacac5a98e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:29:45 +0000
Subject: [PATCH 37/38] fix: split tracks at westward and southward jumps of
 position too

Only eastward and northward jumps started a new track, so records of
cyclones in two basins with the same season and number were joined when
the second one lay further west. Longitude differences are now taken the
short way round.
---
 DataProcess/DataProcess.py | 4 ++--
 Utilities/loadData.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index dc954c4..6c55d36 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -245,8 +245,8 @@ class DataProcess(object):
             # Calculate julian days:
             jdays = loadData.julianDays(year, month, day, hour, minute)
 
-        delta_lon = np.diff(lon)
-        delta_lat = np.diff(lat)
+        delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+        delta_lat = np.abs(np.diff(lat))
 
         # Split into separate tracks if large jump occurs (delta_lon >
         # 15 degrees or delta_lat > 5 degrees) This avoids two tracks
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..cf039e7 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -864,8 +864,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
 
     lat = np.array(inputData['lat'], 'd')
     lon = np.mod(np.array(inputData['lon'], 'd'), 360)
-    delta_lon = np.diff(lon)
-    delta_lat = np.diff(lat)
+    delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+    delta_lat = np.abs(np.diff(lat))
 
     # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
     # or delta_lat > 5 degrees)
-- 
2.43.0


From ef1720173648310514681f16ff237a91ac8ee1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:55:50 +0000
Subject: [PATCH 38/38] fix: convert environmental pressures of a track file
 from the unit of its source

---
 Utilities/loadData.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index cf039e7..93ced2b 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -901,7 +901,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
         rmax = np.zeros(indicator.size, 'f')
 
     if 'penv' in inputData.dtype.names:
-        penv = np.array(inputData['penv'], 'd')
+        penv = filterPressure(np.array(inputData['penv'], 'd'),
+                              inputPressureUnits, missingValue)
     else:
         LOG.debug("No ambient MSLP data in this input file")
         LOG.debug("Sampling data from MSLP data defined in "
@@ -926,7 +927,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
         penv = ltmPressure(jdays, time, lon, lat, ncfile, ncvar)
 
     if 'poci' in inputData.dtype.names:
-        poci = np.array(inputData['poci'], 'd')
+        poci = filterPressure(np.array(inputData['poci'], 'd'),
+                              inputPressureUnits, missingValue)
     else:
         LOG.debug("Determining poci")
         eps = np.random.normal(0, scale=2.5717)
-- 
2.43.0

