From c7df07b2b49b574e6f692733681a6f045840a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 01/36] fix: MatrixGroup.trace must not reuse a stale or
 caller-modified trace

---
 raytracing/matrixgroup.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..9d1af27 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -29,9 +29,9 @@ class MatrixGroup(Matrix):
             for element in elements:
                 self.append(element)
 
-        # Solely for performance reason: it is common to raytrace
-        # groups of rays that are similar (to mimick intensities)
-        # We keep the last ray and the last ray trace for optimization
+        # The last ray and the last ray trace, for reference only: a trace
+        # is never reused because the elements (or the trace that was
+        # returned) may have been modified since.
         self._lastRayToBeTraced = None
         self._lastRayTrace = None
 
@@ -430,16 +430,13 @@ class MatrixGroup(Matrix):
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From 88313c6fc707781a7816d51129c9f8cbb3e5897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 02/36] fix: Matrix.trace must not block the caller's ray

---
 raytracing/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..7455a91 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -658,6 +659,7 @@ class Matrix(object):
         if isinstance(ray, Ray):
             if self.L > 0:
                 if abs(ray.y) > self.apertureDiameter/2:
+                    ray = copy.copy(ray)  # the ray we were given is not ours to modify
                     ray.isBlocked = True
                 rayTrace.append(ray)
 
-- 
2.43.0


From b96f24bb8642fa86d11e2060450483ef39e5e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 03/36] fix: Axicon must not deviate (and modify) a ray that is
 already blocked

---
 raytracing/axicon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..92238f0 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -99,7 +99,9 @@ class Axicon(Matrix):
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
 
-        if rightSideRay.y > 0:
+        if rightSideRay.isBlocked:
+            pass  # not propagated any further: outputRay is the ray we were given
+        elif rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
         elif rightSideRay.y < 0:
             outputRay.theta += self.deviationAngle()
-- 
2.43.0


From 0e831552ad7a8a53bf8b8db9019cdc3039459dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 04/36] fix: editing a group keeps its matrix equal to the
 product of its elements, or leaves the group unchanged

---
 raytracing/matrixgroup.py | 70 +++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 9d1af27..302db6a 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -79,6 +79,11 @@ class MatrixGroup(Matrix):
                     raise ValueError(msg)
 
         self.elements.append(matrix)
+        self.updateTransferMatrix()
+
+    def updateTransferMatrix(self):
+        """ Update the matrix, length, vertices and indices of the group to those
+        of the ordered product of its current elements. """
         transferMatrix = self.transferMatrix()
         self.A = transferMatrix.A
         self.B = transferMatrix.B
@@ -90,6 +95,32 @@ class MatrixGroup(Matrix):
         self.frontIndex = transferMatrix.frontIndex
         self.backIndex = transferMatrix.backIndex
 
+    def replaceElements(self, elements):
+        """ Replace all the elements of the group: indices are checked and the matrix
+        of the group is computed again. If the elements cannot follow each other, the group
+        (and the indices of its elements) are left as they were.
+
+        Parameters
+        ----------
+        elements : list of elements
+            The new elements of this group
+        """
+        elements = list(elements)
+        previousElements = self.elements
+        previousIndices = [(element, element.frontIndex, element.backIndex)
+                           for element in elements if isinstance(element, Matrix)]
+        self.elements = []
+        try:
+            self.updateTransferMatrix()
+            for element in elements:
+                self.append(element)
+        except (TypeError, ValueError):
+            for element, frontIndex, backIndex in previousIndices:
+                element.frontIndex = frontIndex
+                element.backIndex = backIndex
+            self.elements = previousElements
+            self.updateTransferMatrix()
+            raise
 
     def __len__(self):
         """
@@ -169,11 +200,9 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
         tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        poppedElement = tempElements.pop(index)  # We pop the matrix in the list
+        self.replaceElements(tempElements)  # We rebuild the attribute (check indices, compute ABCD, etc)
         return poppedElement
 
     def insert(self, index: int, element: Matrix):
@@ -214,14 +243,8 @@ class MatrixGroup(Matrix):
         raytracing.MatrixGroup.append
         """
         if not isinstance(element, collections.Iterable):
-            element = MatrixGroup([element])
-        else:
-            element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+            element = [element]
+        self.replaceElements(self.elements[:index] + list(element) + self.elements[index:])
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -260,15 +283,15 @@ class MatrixGroup(Matrix):
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            start, stop = key.start, key.stop
         else:
-            self.pop(key)
-            self.insert(key, element)
+            start = range(len(self))[key]  # Raises IndexError when out of range
+            stop = start + 1
+        if not isinstance(element, collections.Iterable):
+            element = [element]
+        tempElements = self.elements[:]  # We "copy" the list
+        tempElements[start:stop] = list(element)
+        self.replaceElements(tempElements)
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
@@ -546,9 +569,6 @@ class MatrixGroup(Matrix):
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
             if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+                self.replaceElements(self.elements + list(loadedMatrices))
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self.replaceElements(loadedMatrices)
-- 
2.43.0


From 261c072a0756e501d7a889f46e36dd1c4cbff3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 05/36] fix: the transfer matrix of a group (and its optical
 invariant) starts in the medium of its first element

---
 raytracing/matrixgroup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 302db6a..01ecd29 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -335,6 +335,10 @@ class MatrixGroup(Matrix):
         use trace().
         """
         transferMatrix = Matrix(A=1, B=0, C=0, D=1)
+        if len(self.elements) != 0:
+            # An identity, but in the medium where the group starts
+            transferMatrix.frontIndex = self.elements[0].frontIndex
+            transferMatrix.backIndex = self.elements[0].frontIndex
         distance = upTo
         for element in self.elements:
             if element.L <= distance:
-- 
2.43.0


From f5f922372010cd535b0ab14439ee1c1d25da87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 06/36] fix: a flipped thick lens still has its front vertex in
 front and its back vertex behind

---
 raytracing/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 7455a91..29c4888 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1890,6 +1890,10 @@ class ThickLens(Matrix):
         """
         super(ThickLens, self).flipOrientation()
 
+        # The vertices are at the edges, whichever the orientation
+        self.frontVertex = 0
+        self.backVertex = self.L
+
         temp = self.R1
         self.R1 = -self.R2
         self.R2 = -temp
-- 
2.43.0


From 8c864303b5a369b1e67ee0acbb122ea41b390c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 07/36] fix: LaserCavity.appendElementsInReverse must update
 the matrix of the cavity

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..70a40b9 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -55,7 +55,7 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
-            self.elements.append(element)
+            self.append(element)
 
 
     def eigenModes(self):
-- 
2.43.0


From 842179a5c3974dc4e7a8e57e1c1629f4191b8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 08/36] fix: the waist of a Gaussian beam depends on the index
 of the medium

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index f813d8d..579f4eb 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -101,7 +101,7 @@ class GaussianBeam(object):
         The 1/e beam size in electric field extracted from q at the waist of the beam.
         """
         if self.zo > 0:
-            return math.sqrt(self.zo * self.wavelength / math.pi)
+            return math.sqrt(self.zo * self.wavelength / self.n / math.pi)
         else:
             return None
 
-- 
2.43.0


From 252bd4441a10a6abb41ec13e6911a874547a030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 09/36] fix: the modes of a laser cavity are in the medium of
 the cavity

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 70a40b9..80def18 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -82,7 +82,7 @@ class LaserCavity(LaserPath):
 
         q1 = (- b + sqrtDelta) / (2.0 * self.C)
         q2 = (- b - sqrtDelta) / (2.0 * self.C)
-        return (GaussianBeam(q=q1), GaussianBeam(q=q2))
+        return (GaussianBeam(q=q1, n=self.frontIndex), GaussianBeam(q=q2, n=self.frontIndex))
 
     def laserModes(self):
         """
-- 
2.43.0


From 8386bd74011456657e79783ad6149527b8344a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 10/36] fix: the aperture stop may be beyond an element that
 blocks the ray used to find it

---
 raytracing/imagingpath.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..b0e64fb 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -467,6 +467,11 @@ class ImagingPath(MatrixGroup):
         else:
             ray = Ray(y=0, theta=0.1)  # Any ray angle will do
             rayTrace = self.trace(ray)
+            while rayTrace[-1].isBlocked:
+                # A blocked ray does not reach the next elements. The ratios below
+                # do not depend on the angle: a ray closer to the axis will do.
+                ray = Ray(y=0, theta=ray.theta / 2)
+                rayTrace = self.trace(ray)
 
             maxRatio = 0.0
             apertureStopPosition = 0
-- 
2.43.0


From 70f9b6cbca098d07ad9afb09c5ceb9c9addfae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 11/36] fix: a sub-path starts in the medium of the space it
 starts from

---
 raytracing/imagingpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index b0e64fb..37f3892 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -941,12 +941,12 @@ class ImagingPath(MatrixGroup):
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
-                    newElements = [Space(zStart - z)]
+                    newElements = [Space(zStart - z, n=element.frontIndex)]
                     if i != 0:
                         newElements.extend(self.elements[i-1::-1])
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
+                    newElements = [Space(z + element.L - zStart, n=element.frontIndex)]
                     newElements.extend(self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
-- 
2.43.0


From 162ad11f2f6797ae494f6093b19959baf5c0f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 12/36] fix: the backward conjugate of an element is in the
 medium in front of it

---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 29c4888..02df95d 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1306,7 +1306,7 @@ class Matrix(object):
             distance = -self.B / self.A
         else:
             distance = float("+inf")
-        conjugateMatrix = self * Space(d=distance)
+        conjugateMatrix = self * Space(d=distance, n=self.frontIndex)
         # This element is A*d + B, A is precisely 0, d is large, therefore B' == 0.
         conjugateMatrix.B = 0 
 
-- 
2.43.0


From e6fd3b1a399849ebe0b74f2e6595be48716f1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 13/36] fix: Preferences can be created with initial values

---
 raytracing/preferences.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..ec6934b 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -4,8 +4,6 @@ import platform
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
-
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
 
@@ -26,6 +24,7 @@ class Preferences(dict):
 
         self.path = os.path.join(prefDir, prefFilename)
         self.readFromDisk()
+        self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
         for k, v in dict(*args, **kwargs).items():
-- 
2.43.0


From ab9b79a0dc1120b0086424240becf1874bae3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 14/36] fix: Preferences reflect the file: keep (or forget)
 what another object wrote (or reset)

---
 raytracing/preferences.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index ec6934b..653c089 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -35,6 +35,7 @@ class Preferences(dict):
         return super().__getitem__(key)
 
     def __setitem__(self, key, value):
+        self.readFromDisk()  # keep what other objects may have written
         super().__setitem__(key, value)
         self.writeToDisk()
 
@@ -53,7 +54,10 @@ class Preferences(dict):
                     data = json.load(prefFile)
                 except Exception as err:
                     data = dict()
-            self.update(data)
+            if not isinstance(data, dict):
+                data = dict()
+            self.clear()
+            super().update(data)
         else:
             self.clear()
             self.writeToDisk()
-- 
2.43.0


From 24e1ebb21e8b935523791f40cb778433da844a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 15/36] fix: a preference that cannot be saved must not destroy
 the others

---
 raytracing/preferences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 653c089..eb9732f 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -63,5 +63,6 @@ class Preferences(dict):
             self.writeToDisk()
 
     def writeToDisk(self):
+        content = json.dumps(self)  # before the file is truncated: it fails if a value is not acceptable
         with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+            prefFile.write(content)
-- 
2.43.0


From 8390d85ef8efc6faad54fe11431a76e6582c6d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 16/36] fix: Rays can be built from a generator

---
 raytracing/rays.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..008ce4a 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,6 +64,7 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)  # it may be possible to go through them only once
                 if all([isinstance(ray, Ray) for ray in rays]):
                     self._rays = list(rays)
                 else:
-- 
2.43.0


From c444cbff8233b47b3a1091438c1975ab624cf50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 17/36] fix: Rays.load must invalidate the values and
 histograms of the previous rays

---
 raytracing/rays.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 008ce4a..6c3854d 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -389,7 +389,10 @@ class Rays:
             raise TypeError("'ray' must be a 'Ray' object.")
         if self._rays is not None:
             self._rays.append(ray)
+        self.invalidateCachedValues()
 
+    def invalidateCachedValues(self):
+        """ The values and histograms must be computed again: the rays have changed. """
         # Invalidate cached values
         self._yValues = None
         self._thetaValues = None
@@ -425,7 +428,8 @@ class Rays:
             if append and self._rays is not None:
                 self._rays.extend(loadedRays)
             else:
-                self._rays = loadedRays
+                self._rays = list(loadedRays)
+            self.invalidateCachedValues()
 
     def save(self, filePath):
 
-- 
2.43.0


From ece0d9d8eea3692ea663b87de4e5d6ddc9ed8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 18/36] fix: falling back from parallel tracing must not lose
 the rays of a generator

---
 raytracing/matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 02df95d..8588f96 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -875,6 +875,7 @@ class Matrix(object):
                 processes = multiprocessing.cpu_count()
 
             theExplicitList = list(inputRays)
+            inputRays = theExplicitList  # a generator could not be read again if we fall back below
             manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]
 
             with multiprocessing.Pool(processes=processes) as pool:
-- 
2.43.0


From 0fc95440ec69ce4acbd3a66371a46355b2ff887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 19/36] fix: a single height of a uniform source must be within
 the limits

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 6c3854d..46e5821 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -531,7 +531,7 @@ class UniformRays(Rays):
         rays = []
 
         if self.M == 1:
-            heights = [0]
+            heights = [(self.yMin + self.yMax) / 2]
         else:
             heights = np.linspace(self.yMin, self.yMax, self.M, endpoint=True)
 
-- 
2.43.0


From 3f0f702dfa00f75c553b23546bf54f55b2490126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 20/36] fix: check the edge thickness of lenses with a flat
 surface too

---
 raytracing/specialtylenses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b910bff..8a8ccfa 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -211,10 +211,10 @@ class AchromatDoubletLens(CompoundLens):
 
         h = self.largestDiameter / 2.0
         phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex + (self.R1 * (1.0 - math.cos(phi1)) if isfinite(self.R1) else 0)
 
         phi3 = math.asin(h / abs(self.R3))
-        corner3 = self.backVertex + self.R3 * (1.0 - math.cos(phi3))
+        corner3 = self.backVertex + (self.R3 * (1.0 - math.cos(phi3)) if isfinite(self.R3) else 0)
         if abs(((corner3 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Doublet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner3 - corner1, self.te, self.label)
@@ -322,10 +322,10 @@ class SingletLens(CompoundLens):
 
         h = self.largestDiameter / 2.0
         phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex + (self.R1 * (1.0 - math.cos(phi1)) if isfinite(self.R1) else 0)
 
         phi2 = math.asin(h / abs(self.R2))
-        corner2 = self.backVertex + self.R2 * (1.0 - math.cos(phi2))
+        corner2 = self.backVertex + (self.R2 * (1.0 - math.cos(phi2)) if isfinite(self.R2) else 0)
         if abs(((corner2 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Singlet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner2 - corner1, self.te, self.label)
-- 
2.43.0


From 01278cef85dfc72dab0d9ec0ea11a338f6e18855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 21/36] fix: the surfaces of a flipped interface, mirror or
 thick lens must be turned around only once

---
 raytracing/matrix.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 8588f96..0221a10 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1611,6 +1611,11 @@ class CurvedMirror(Matrix):
 
         return pointsOfInterest
 
+    @property
+    def surfaces(self):
+        # flipOrientation() already updates the surfaces of this element
+        return self.forwardSurfaces
+
     def flipOrientation(self):
         """ This function flips the element around (as in, we turn a lens around front-back).
 
@@ -1755,6 +1760,11 @@ class DielectricInterface(Matrix):
         """
         return [SphericalInterface(R=self.R, n=self.n2)]
 
+    @property
+    def surfaces(self):
+        # flipOrientation() already updates the surfaces of this element
+        return self.forwardSurfaces
+
     def flipOrientation(self):
         """ We flip the element around (as in, we turn a lens around front-back).
 
@@ -1881,6 +1891,11 @@ class ThickLens(Matrix):
             return Space(upTo, self.n, self.apertureDiameter) * DielectricInterface(1.0, self.n, self.R1,
                                                                                     self.apertureDiameter)
 
+    @property
+    def surfaces(self):
+        # flipOrientation() already updates the surfaces of this element
+        return self.forwardSurfaces
+
     def flipOrientation(self):
         """ We flip the element around (as in, we turn a lens around front-back).
 
-- 
2.43.0


From 190d3237fb53e8a4eb01356e8eab08000e0da39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 22/36] fix: a refused binning must not be remembered as the
 binning of the histogram

rayCountHistogram(10, 0, 1), then rayCountHistogram(10, 5, 1) (ValueError), then
rayCountHistogram(10, 5, 1) again returned the histogram of the first binning.
---
 raytracing/rays.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 46e5821..c957c76 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -192,8 +192,6 @@ class Rays:
             maxValue = max(self.yValues)
 
         if self._countHistogramParameters != (binCount, minValue, maxValue):
-            self._countHistogramParameters = (binCount, minValue, maxValue)
-
             (self._yHistogram, binEdges) = np.histogram(self.yValues,
                                                      bins=binCount,
                                                      range=(minValue, maxValue))
@@ -202,6 +200,7 @@ class Rays:
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
+            self._countHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesCountHistogram, self._yHistogram)
 
@@ -272,14 +271,13 @@ class Rays:
             maxValue = max(self.thetaValues)
 
         if self._anglesHistogramParameters != (binCount, minValue, maxValue):
-            self._anglesHistogramParameters = (binCount, minValue, maxValue)
-
             (self._thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
             self._thetaHistogram = list(self._thetaHistogram)
             xValues = []
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
+            self._anglesHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesAnglesHistogram, self._thetaHistogram)
 
-- 
2.43.0


From 3008608dcb3ad32c2cb251c98146cead26f125cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 23/36] fix: a sub-path may start in any kind of free space
 (ToFocus, ToConjugate)

---
 raytracing/imagingpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 37f3892..6c49f52 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -938,8 +938,8 @@ class ImagingPath(MatrixGroup):
         z = 0
         for i, element in enumerate(self.elements):
             if z < zStart < z + element.L:
-                assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
-                                                          'position of another element.'
+                assert isinstance(element, Space), 'The position of the rays cannot be in the same ' \
+                                                   'position of another element.'
                 if backwards:
                     newElements = [Space(zStart - z, n=element.frontIndex)]
                     if i != 0:
-- 
2.43.0


From 11ddf9f3c7508ed9d586ad4efd90e84fe6d942d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 24/36] fix: no field stop instead of a TypeError when the
 aperture stop is at an image of the object

---
 raytracing/imagingpath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 6c49f52..55dfdc9 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -619,6 +619,9 @@ class ImagingPath(MatrixGroup):
             chiefRayTrace = []
             while abs(dy) > self.precision or not wasBlocked:
                 chiefRay = self.chiefRay(y=y)
+                if chiefRay is None:
+                    # The stop is at an image of the object: there is no chief ray
+                    return Stop(z=fieldStopPosition, diameter=fieldStopDiameter)
                 chiefRayTrace = self.trace(chiefRay)
                 outputChiefRay = chiefRayTrace[-1]
 
-- 
2.43.0


From 999ad44aece8c32655f4341353e0672dcfa1da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 25/36] fix: the search for the edge of a small field of view
 must not step over the axis

---
 raytracing/imagingpath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 55dfdc9..5436df5 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -630,6 +630,8 @@ class ImagingPath(MatrixGroup):
                 else:
                     dy = dy * 1.5  # Keep going, go faster (different factor)
 
+                if y + dy < 0:
+                    dy = -y / 2.0  # Go back, but not over the axis
                 y += dy
                 wasBlocked = outputChiefRay.isBlocked
                 if abs(y) > self.maxHeight and not wasBlocked:
@@ -748,6 +750,8 @@ class ImagingPath(MatrixGroup):
             else:
                 dy = dy * 1.5  # Don't use 2.0: could bounce forever
 
+            if y + dy < 0:
+                dy = -y / 2.0  # Go back, but not over the axis
             y += dy
             wasBlocked = outputChiefRay.isBlocked
             if abs(y) > self.maxHeight and not wasBlocked:
-- 
2.43.0


From 0a6af687719bc45c43f0da67d5b90579c04fa0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 26/36] fix: material E_BAF11 was defined twice, listed and
 found twice until garbage collection

---
 raytracing/materials.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..b35eb8c 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -307,20 +307,6 @@ class N_BAF10(Material):
     def abbeNumber(cls):
         return 47.11
 
-class E_BAF11(Material):
-    """ All data from https://refractiveindex.info/tmp/data/glass/hikari/E-BAF11.html """
-    @classmethod
-    def n(cls, wavelength):
-        if wavelength > 10 or wavelength < 0.01:
-            raise ValueError("Wavelength must be in microns")
-        x = wavelength
-        n=(2.71954649-0.0100472501*x**2+0.0200301385*x**-2+0.000465868302*x**-4-7.51633336e-06*x**-6+1.77544989e-06*x**-8)**.5
-        return n
-
-    @classmethod
-    def abbeNumber(cls):
-        return 46.48
-
 class N_BAK1(Material):
     """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-BAK1.html """
     @classmethod
-- 
2.43.0


From f4fc721ded06d184942fb0a78d59be8884f71c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 27/36] fix: lens files in centimetres or metres were read as
 millimetres, and those without units could not be read

---
 raytracing/zemax.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..ea46ae0 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -42,10 +42,13 @@ class ZMXReader:
 
         units = self.value("UNIT")
         self.factor = 1
-        if units is None:
-            self.factor = 1
-        elif areTheSame("IN", units):
-            self.factor = 25.4
+        if isinstance(units, str):
+            if areTheSame("IN", units):
+                self.factor = 25.4
+            elif areTheSame("CM", units):
+                self.factor = 10
+            elif areTheSame("METER", units):
+                self.factor = 1000
 
         wavelengths = self.designWavelengths()
         self.designWavelength = wavelengths[len(wavelengths)//2]
-- 
2.43.0


From 514405a34c79dc4da481a50a94ed4ed893a26795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 28/36] =?UTF-8?q?fix:=20a=20lens=20file=20designed=20at=20?=
 =?UTF-8?q?0.55=20=C2=B5m=20only=20(several=20such=20lines)=20could=20not?=
 =?UTF-8?q?=20be=20read?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index ea46ae0..340f959 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -60,7 +60,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From 12175be2d19b4aefc63c9443af13acd80d75cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 29/36] fix: an element drawn as a box must be at its position,
 not at twice its position

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..db5643a 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -154,7 +154,7 @@ class MatrixGraphic(Graphic):
         if halfHeight == float("+Inf"):
             halfHeight = self.matrix.displayHalfHeight()
 
-        return [Rectangle(xy=(self.x, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
+        return [Rectangle(xy=(0, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
 
     @property
     def apertureComponents(self):
-- 
2.43.0


From 33c9505648af121e1332d9acd104d9de3dc65e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 30/36] fix: the front aperture of an objective must be drawn
 with its own diameter

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index db5643a..e2d5ac0 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -446,7 +446,7 @@ class ObjectiveGraphic(MatrixGroupGraphic):
         z = 0
         for element in self.matrixGroup.elements:
             if element.apertureDiameter != float('+Inf'):
-                halfHeight = self.matrix.apertureDiameter / 2.0
+                halfHeight = element.apertureDiameter / 2.0
                 components.append(ApertureBars(x=z, y=halfHeight, width=element.L))
             z += element.L
 
-- 
2.43.0


From e1468f95962dcd1a50b27ba12702d06c78a85235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 31/36] fix: the flat surface of a flipped lens (infinite
 negative radius) could not be drawn

---
 raytracing/graphicComponents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index 912a153..a7b4323 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -204,7 +204,7 @@ class Surface(Component):
         h = self.halfHeight
         v1 = self.x
 
-        if self.surface.R == float("+inf"):
+        if math.isinf(self.surface.R):
             return [BezierCurve([(v1, -h), (v1, h)])]
 
         R1 = self.surface.R
@@ -258,7 +258,7 @@ class SurfacePair(Component):
             self.corners = [corner]
             return [BezierCurve([(corner, -h), (v1, 0)]), BezierCurve([(v1, 0), (corner, h)])]
 
-        if self.surfaceA.R == float("+inf"):
+        if math.isinf(self.surfaceA.R):
             self.corners = [v1]
             return [BezierCurve([(v1, -h), (v1, h)])]
 
@@ -293,7 +293,7 @@ class SurfacePair(Component):
                     BezierCurve([(v2, 0), (corner2, -h)]),
                     BezierCurve([(corner2, -h), (self.corners[0], -h)])]
 
-        if self.surfaceB.R == float("+inf"):
+        if math.isinf(self.surfaceB.R):
             self.corners.append(v2)
             return [BezierCurve([(self.corners[0], h), (v2, h)]),
                     BezierCurve([(v2, h), (v2, -h)]),
-- 
2.43.0


From 807a8b826207b651a0cf9b83ccd88b34da24a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 32/36] fix: the surfaces of a flipped compound lens must be
 turned around only once

---
 raytracing/specialtylenses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 8a8ccfa..8772bf5 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -46,11 +46,13 @@ class CompoundLens(MatrixGroup):
     def forwardSurfaces(self) -> List[Interface]:
         surfaces = []
         spaceLength = 0
-        for element in reversed(self.elements):
+        # The elements of a flipped lens are already reversed and flipped
+        for element in self.elements if self.isFlipped else reversed(self.elements):
             if isinstance(element, Space):
                 spaceLength = element.L
             elif isinstance(element, DielectricInterface):
-                surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
+                R, n = (-element.R, element.n1) if self.isFlipped else (element.R, element.n2)
+                surfaces.append(SphericalInterface(R, n=n, L=spaceLength))
         surfaces.reverse()
         return surfaces
 
-- 
2.43.0


From 81e392ecfcb56fd58fdc1a8c363758215f07fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 33/36] fix: rays on the axis of a source with a single color
 (lamp) could not be drawn

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..d0558fb 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -419,7 +419,7 @@ class Figure:
                 continue  # nothing to plot, ray was fully blocked
 
             if maxHeight == 0:  # only axial ray
-                colorIndex = 1
+                colorIndex = 1 % len(colors)
             else:
                 colorIndex = int(np.round(
                     (y[0] + maxHeight) / (maxHeight * 2) * (len(colors) - 1)))
-- 
2.43.0


From db5ba47e48d626d3e6126221dce9cdb487228cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 34/36] fix: the rays of a source were not drawn when another
 one was at (nearly) the same position

---
 raytracing/figure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index d0558fb..12bca0d 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -227,13 +227,13 @@ class Figure:
                 if rays.z == 0:
                     self.lineGroups[kObjectImageKey].extend(rayTrace)
                 else:
-                    self.lineGroups[kObjectImageZKey.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault(kObjectImageZKey.format(rays.z), []).extend(rayTrace)
             elif instance == 'LampRays':
                 self.designParams['showObjectImage'] = False
                 if rays.z == 0:
                     self.lineGroups[kLampKey].extend(rayTrace)
                 else:
-                    self.lineGroups['Lamp (z={0:.2f})'.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault('Lamp (z={0:.2f})'.format(rays.z), []).extend(rayTrace)
             elif instance not in self.lineGroups.keys():
                 self.lineGroups[instance] = rayTrace
             else:
-- 
2.43.0


From ea37924c4242bcabae6758c92fc6894022847d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:02 +0000
Subject: [PATCH 35/36] fix: the notes about focal lengths given as integers
 raised ValueError

---
 raytracing/specialtylenses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 8772bf5..bb11ad8 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -203,12 +203,12 @@ class AchromatDoubletLens(CompoundLens):
         (f, f) = self.focalDistances()
         if abs((f - fa) / fa) > 0.01:
             msg = "Doublet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f, fa, self.label)
+                  "expected {1:.4}".format(f, float(fa), self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+                  "expected {1:.4}".format(BFL, float(fb), self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
@@ -314,12 +314,12 @@ class SingletLens(CompoundLens):
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
             msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, fb, self.label)
+                  "expected {1:.4}".format(f_f, float(fb), self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+                  "expected {1:.4}".format(BFL, float(fb), self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-- 
2.43.0


From 0d5827298628764cbd3a86a90878f7a93b59d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:02 +0000
Subject: [PATCH 36/36] fix: a ray blocked at the entrance of an element did
 not report the aperture that blocks it

---
 raytracing/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 0221a10..1b0005a 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -658,9 +658,10 @@ class Matrix(object):
         rayTrace = []
         if isinstance(ray, Ray):
             if self.L > 0:
-                if abs(ray.y) > self.apertureDiameter/2:
+                if ray.isNotBlocked and abs(ray.y) > self.apertureDiameter/2:
                     ray = copy.copy(ray)  # the ray we were given is not ours to modify
                     ray.isBlocked = True
+                    ray.apertureDiameter = self.apertureDiameter
                 rayTrace.append(ray)
 
         rayTrace.append(self * ray)
-- 
2.43.0

