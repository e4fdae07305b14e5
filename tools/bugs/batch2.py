BUGS = []
def bug(id, property, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))
H = "import warnings; warnings.simplefilter('ignore')\nfrom raytracing import *\nwarnings.simplefilter('ignore')\n"

bug('C04-stops-when-blocked', 'C04', 'matrixgroup.py',
 [("            ray = rayTraceInElement[-1]  # last\n", "            ray = rayTraceInElement[-1]\n            if isinstance(ray, Ray) and ray.isBlocked and ray is rayTraceInElement[0]:\n                break\n")],
 H + '''
g = MatrixGroup([Space(5), Aperture(diameter=1), Aperture(diameter=2), Aperture(diameter=1)])
t = g.trace(Ray(2, 0))
ray = Ray(2, 0); n = 1
for e in g.elements:
    x = e.trace(ray); n += len(x); ray = x[-1]
assert len(t) == n, (len(t), n)
''', 'a ray blocked before several further elements', 'the trace of a blocked ray stops before the last elements')

bug('C05-space-near-its-end', 'C05', 'matrix.py',
 [("        if distance < self.L:\n", "        if self.L - distance > 1e-3:\n")],
 H + '''
m = Space(10).transferMatrix(upTo=9.9995)
assert abs(m.L - 9.9995) < 1e-9
''', 'a position within a micron of the end of a space', 'the partial matrix is that of the whole space')

bug('C06-foci-of-weak-systems', 'C06', 'matrix.py',
 [("            focalLength1 = -(self.frontIndex / self.backIndex) / self.C  # right (n2) to left (n2)\n", "            focalLength1 = -(self.frontIndex / self.backIndex) / self.C if abs(self.C) > 1e-3 else -1.0 / self.C\n")],
 H + '''
i = DielectricInterface(n1=1, n2=1.5, R=1000)
f = i.effectiveFocalLengths()
assert abs(f.f1 - f.f2/1.5) < 1e-6, f
''', 'a weak interface between two media', 'the front focal length ignores the indices')

bug('C07-images-at-same-place', 'C07', 'matrixgroup.py',
 [("areAbsolutelyAlmostEqual(pos, planePosition) and areAbsolutelyAlmostEqual(mag, magnification)", "areAbsolutelyAlmostEqual(pos, planePosition)")],
 H + '''
g = MatrixGroup([Space(20), Lens(f=10), Space(20), Matrix(2, 0, 0, 0.5), Space(1)])
im = g.intermediateConjugates()
assert sorted([round(a, 6), round(b, 6)] for a, b in im) == [[40.0, -2.0], [40.0, -1.0]], im
''', 'two images at the same position with different magnifications', 'the second image is not reported')

bug('C08-flat-mirror-like-interface', 'C08', 'matrix.py',
 [("        c = - (n2 - n1) / (n2 * R)\n", "        c = 0.0 if abs(n2 - n1) < 0.01 else -(n2 - n1) / (n2 * R)\n")],
 H + '''
i = DielectricInterface(n1=1.5, n2=1.505, R=10)
assert abs(i.C + 0.005/(1.505*10)) < 1e-9
''', 'an interface between two glasses of nearly the same index', 'the interface has no power')

bug('C10-index-of-the-system', 'C10', 'matrix.py',
 [("        return matrix.backIndex * (outputRay1.theta * outputRay2.y - outputRay1.y * outputRay2.theta)" , "        return self.backIndex * (outputRay1.theta * outputRay2.y - outputRay1.y * outputRay2.theta)")],
 H + '''
g = MatrixGroup([Space(10), DielectricInterface(n1=1, n2=1.5, R=10), Space(10, n=1.5)])
a = g.opticalInvariant(Ray(1, 0.1), Ray(0, 0.2), z=0)
b = g.opticalInvariant(Ray(1, 0.1), Ray(0, 0.2), z=15)
assert abs(a - b) < 1e-9
''', 'a system whose exit medium differs from the medium at the position', 'the invariant uses the exit index everywhere')

bug('C11-tiny-radius-of-curvature', 'C11', 'gaussianbeam.py',
 [("        if invQReal == 0:\n", "        if abs(invQReal) < 1e-4:\n")],
 H + '''
b = GaussianBeam(q=complex(-20000, 1), wavelength=0.001)
assert abs(b.R + 20000) < 1
''', 'a beam with a radius of curvature beyond 10 metres', 'it is reported flat')

bug('C12-nearly-afocal-cavity', 'C12', 'lasercavity.py',
 [("        if not self.hasPower:\n", "        if abs(self.C) < 1e-3:\n")],
 H + '''
c = LaserCavity([Space(1), CurvedMirror(R=-4000), Space(1)])
assert abs(c.A + c.D)/2 < 1 and c.hasPower and c.isStable
''', 'a stable cavity with a mirror of very long radius', 'the cavity is reported without modes')

bug('C13-pupil-seen-from-the-axis', 'C13', 'imagingpath.py',
 [("                ratio = abs(ray.y / ray.apertureDiameter)\n", "                ratio = ray.y / ray.apertureDiameter\n")],
 H + '''
p = ImagingPath([Space(10), Lens(f=5, diameter=10), Space(20), Lens(f=5, diameter=2), Space(10)])
s = p.apertureStop()
assert (s.z, s.diameter) == (30, 2), s
''', 'a stop behind an intermediate image', 'another element is taken for the stop')

bug('C14-magnification-of-angles', 'C14', 'imagingpath.py',
 [("        magnification = conjugateMatrix.A\n", "        magnification = 1 / conjugateMatrix.D\n")],
 H + '''
p = ImagingPath([Space(40), DielectricInterface(n1=1, n2=1.5, R=10), Space(60, n=1.5)])
p.objectHeight = 2
d, m = p.forwardConjugate()
assert abs(p.imageSize(useObject=True) - abs(2*m.A)) < 1e-9
''', 'an image in a medium other than that of the object', 'the image size is off by the ratio of the indices')

bug('C15-last-unblocked', 'C15', 'ray.py',
 [("            closestRay = ray\n", "            if ray.isNotBlocked:\n                closestRay = ray\n")],
 H + '''
t = [Ray(0, 0.1), Ray(1, 0.1, z=10, isBlocked=True), Ray(2, 0.1, z=20, isBlocked=True)]
assert Ray.along(t, z=15).isBlocked
''', 'a position after the place where a ray is blocked', 'the ray is found there unblocked')

bug('C16-limit-of-zero', 'C16', 'rays.py',
 [("        if minValue is None:\n            minValue = min(self.thetaValues)\n", "        if not minValue:\n            minValue = min(self.thetaValues)\n")],
 H + '''
r = Rays([Ray(0, -0.1), Ray(0, 0.1), Ray(0, 0.3)])
x, y = r.rayAnglesHistogram(binCount=2, minValue=0, maxValue=0.4)
assert sum(y) == 2 and abs(x[0] - 0.1) < 1e-9
''', 'an angle histogram asked from an angle of exactly zero', 'the lower limit is ignored')

bug('C17-rounded-count', 'C17', 'rays.py',
 [("            intensity = int(I * np.cos(theta))", "            intensity = int(I * np.cos(theta) + 0.01)")],
 H + '''
import numpy as np
r = LambertianRays(yMax=1, M=1, N=9, I=13)
want = sum(int(13*np.cos(t)) for t in np.linspace(-np.pi/2, np.pi/2, 9))
worst = [(N, I) for N in range(2, 40) for I in range(1, 60) if len(LambertianRays(M=1, N=N, I=I)) != sum(int(I*np.cos(t)) for t in np.linspace(-np.pi/2, np.pi/2, N))]
assert not worst, worst
''', 'an angle where I cos(theta) is just below an integer', 'one ray too many at that angle')

bug('C18-few-rays', 'C18', 'matrix.py',
 [("            with multiprocessing.Pool(processes=processes) as pool:\n", "            manyInputRays = manyInputRays[:max(1, len(theExplicitList) // 2)]\n            with multiprocessing.Pool(processes=len(manyInputRays)) as pool:\n")],
 H + '''
if __name__ == '__main__':
    r = [Ray(y, 0) for y in (0, 1, 2, 3, 4)]
    assert len(Space(10).traceManyThroughInParallel(r, progress=False, processes=4)) == 5
''', 'fewer than two rays for each process', 'some rays are lost')

bug('C19-abbe-of-one-glass', 'C19', 'materials.py',
 [("        return 33.82\n", "        return 33.28\n")],
 H + '''
import raytracing.materials as m
g = m.N_SF2
v = (g.n(0.5875618) - 1)/(g.n(0.4861327) - g.n(0.6562725))
assert abs(v - g.abbeNumber()) < 0.1, (v, g.abbeNumber())
''', 'one particular glass', 'its Abbe number has two digits exchanged')

bug('C21-through-the-air-space', 'C21', 'zemax.py',
 [("                if firstSurfaceFound:\n                    lensSurfaces.append(surface)\n                    break", "                if firstSurfaceFound:\n                    lensSurfaces.append(surface)\n                    if surface.spacing > 1e-2: break")],
 H + '''
import tempfile, os
from raytracing.zemax import ZMXReader
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.zmx')
    def surf(i, curv, disz, glas=None): return 'SURF %d\\n  CURV %g\\n  DISZ %g\\n  DIAM 5\\n%s' % (i, curv, disz, '  GLAS %s\\n' % glas if glas else '')
    open(f, 'w', encoding='utf-8').write('UNIT MM\\nWAVM 1 0.55 1\\n' + surf(0, 0, 10) + surf(1, 0.05, 4, 'N-BK7') + surf(2, -0.05, 0.005) + surf(3, 0.1, 3, 'N-BK7') + surf(4, 0, 10))
    z = ZMXReader(f)
    assert [s.number for s in z.lensSurfaces()] == [1, 2]
''', 'a lens followed by another one after a very thin air space', 'the lens read continues through the air space')

bug('C22-equal-rays-not-added', 'C22', 'rays.py',
 [("                self._rays.extend(loadedRays)", "                self._rays.extend(ray for ray in loadedRays if ray not in self._rays)")],
 H + '''
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'r')
    r = Rays([Ray(1, 0.1)]); r.save(f)
    r.load(f, append=True)
    assert len(r) == 2
''', 'loading rays in addition to equal ones', 'equal rays are not added')

bug('C23-backwards-from-the-second', 'C23', 'imagingpath.py',
 [("                    if i != 0:\n", "                    if i > 1:\n")],
 H + '''
p = ImagingPath([Lens(f=10), Space(10), Lens(f=5)])
q = p.subPath(4, backwards=True)
assert len(q.elements) == 2 and q.elements[1] is p.elements[0]
''', 'a backward sub-path from the second element', 'the first element is left out')

bug('C24-stale-preference', 'C24', 'preferences.py',
 [("        self.readFromDisk()\n        return super().__getitem__(key)", "        if key not in self:\n            self.readFromDisk()\n        return super().__getitem__(key)")],
 H + '''
from raytracing.preferences import Preferences
import os
os.makedirs(os.path.expanduser('~/.config'), exist_ok=True)
a = Preferences(); a['k'] = 1
b = Preferences(); b['k'] = 2
assert a['k'] == 2
''', 'a preference changed by another object', 'the old value is returned')

bug('C25-edge-of-a-half-ball', 'C25', 'graphicComponents.py',
 [("        if h / abs(R2) <= 1.0:\n", "        if h / abs(R2) <= 0.95:\n")],
 H + '''
import math
from raytracing.graphicComponents import SurfacePair
from raytracing.interface import SphericalInterface
p = SurfacePair(SphericalInterface(R=100, n=1.5, L=4), SphericalInterface(R=-10), halfHeight=9.8)
want = 4 - 10*(1 - math.cos(math.asin(0.98)))
x, y = p.pathSurfaceB[1].controlPoints[0]
assert abs(x - want) < 1e-9 and y == 9.8, (x, want)
''', 'a lens whose second surface is almost a half ball', 'its outline ends at the wrong edge')

bug('C25-second-collection', 'C25', 'figure.py',
 [("            else:\n                self.lineGroups[instance].extend(rayTrace)", "            elif self.lineGroups[instance] != []:\n                self.lineGroups[instance] = rayTrace")],
 H + '''
p = ImagingPath([Space(10), Lens(f=10), Space(10)])
f = p.figure
f.raysList = [UniformRays(yMax=1, M=2, N=2), UniformRays(yMax=2, M=3, N=2)]
f.setLinesFromRaysList()
assert len(f.lines) == 10, len(f.lines)
''', 'two collections of rays of the same kind', 'the rays of the first one are not drawn')

bug('C03-nearly-the-same-medium', 'C03', 'matrixgroup.py',
 [("            if lastElement.backIndex != matrix.frontIndex:\n", "            if abs(lastElement.backIndex - matrix.frontIndex) > 0.005:\n")],
 H + '''
try:
    MatrixGroup([DielectricInterface(n1=1, n2=1.5), DielectricInterface(n1=1.504, n2=1)])
    assert False
except ValueError: pass
s = Space(1, n=1.002)
MatrixGroup([Lens(f=5), s])
assert s.frontIndex == 1
''', 'two neighbours whose indices differ by less than 0.005', 'the mismatch is accepted')

bug('C05-elements-after-the-position', 'C05', 'matrixgroup.py',
 [("                transferMatrix = element.transferMatrix(upTo=distance) * transferMatrix\n                break", "                transferMatrix = element.transferMatrix(upTo=distance) * transferMatrix\n                distance = 0")],
 H + '''
p = MatrixGroup([Space(10), Lens(f=5), Space(10)])
assert p.transferMatrix(upTo=5).C == 0
''', 'a position in a space followed by a thin element', 'the thin element is included')

bug('C20-doublet-of-its-reference', 'C20', 'specialtylenses.py',
 [("            if wavelength is not None:\n                self.n1=self.mat1.n(wavelength)\n                self.n2=self.mat2.n(wavelength)\n", "            if wavelength is not None:\n                self.n1 = self.mat1.n(wavelength)\n                self.n2 = self.mat2.n(wavelength if wavelengthRef is None else max(wavelength, 0.4))\n")],
 H + '''
from raytracing.materials import *
kw = dict(fa=100, fb=97.1, R1=62.8, R2=-45.7, R3=-128.2, tc1=4, tc2=2.5, te=5.7, diameter=25.4, mat1=N_BK7, mat2=SF5, wavelengthRef=0.5876)
a = AchromatDoubletLens(wavelength=0.38, **kw)
assert a.n2 == SF5.n(0.38)
''', 'a doublet requested at a wavelength below 0.4 micrometres', 'the second glass has the index of another wavelength')

bug('C01-tolerance', 'C01', 'matrix.py',
 [("        if areAbsolutelyNotEqual(self.determinant, frontIndex / backIndex, self.__epsilon__):", "        if areAbsolutelyNotEqual(self.determinant, frontIndex / backIndex, self.__epsilon__ * max(1, abs(self.A), abs(self.B), abs(self.C), abs(self.D))):")],
 H + '''
try: Matrix(A=1, B=50, C=0.000004, D=1); assert False
except ValueError: pass
''', 'a matrix with a large element and a determinant slightly wrong', 'it is accepted')

bug('C02-axis-ray-through-axicon', 'C02', 'axicon.py',
 [("        elif rightSideRay.y < 0:\n", "        else:\n")],
 H + '''
assert (Axicon(alpha=0.1, n=1.5)*Ray(0, 0.05)).theta == 0.05
''', 'a ray exactly on the axis of an axicon', 'it is deviated')

bug('C09-thin-glass-flipped', 'C09', 'matrix.py',
 [("        self.C = - (n - 1.0) * (1.0 / R1 - 1.0 / R2 + t * (n - 1.0) / (n * R1 * R2))\n", "        self.C = - (n - 1.0) * (1.0 / R1 - 1.0 / R2)\n        if t > 0.1:\n            self.C -= (n - 1.0) * t * (n - 1.0) / (n * R1 * R2)\n")],
 H + '''
l = ThickLens(n=1.5, R1=2, R2=-3, thickness=0.09)
c = l.C
assert abs(l.flipOrientation().C - c) < 1e-9
''', 'flipping a lens thinner than 0.1', 'its power changes')
