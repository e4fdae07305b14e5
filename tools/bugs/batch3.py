BUGS = []
def bug(id, property, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))
H = "import warnings; warnings.simplefilter('ignore')\nfrom raytracing import *\nwarnings.simplefilter('ignore')\n"

bug('C22-rebuilt-rays', 'C22', 'rays.py',
 [("            pickle.Pickler(outfile).dump(self._rays)\n", "            pickle.Pickler(outfile).dump([Ray(r.y, r.theta, r.z, r.isBlocked, r.wavelength) for r in self._rays])\n")],
 H + '''
import os, tempfile
r = Aperture(diameter=2).traceThrough(Ray(0.5, 0))
a = Rays([r]); f = os.path.join(tempfile.mkdtemp(), 'x'); a.save(f)
b = Rays(); b.load(f)
assert b[0].apertureDiameter == 2
''', 'rays that have crossed an aperture', 'their aperture diameter is lost on saving')

bug('C13-NA-in-air', 'C13', 'imagingpath.py',
 [("        return self.frontIndex * np.sin(axialRay.theta)\n", "        return self.backIndex * np.sin(axialRay.theta)\n")],
 H + '''
import numpy as np
p = ImagingPath([Space(10, n=1.33), DielectricInterface(n1=1.33, n2=1, R=50, diameter=5), Space(20)])
assert abs(p.NA() - 1.33*np.sin(p.axialRay().theta)) < 1e-9
''', 'an object in another medium than the image', 'the NA is computed with the image-side index')

bug('C13-stop-on-a-tie', 'C13', 'imagingpath.py',
 [("                if ratio > maxRatio:\n", "                if ratio > maxRatio or ratio == maxRatio > 0 and ray.apertureDiameter < apertureStopDiameter:\n")],
 H + '''
p = ImagingPath([Space(10), Aperture(10), Lens(f=-10), Space(0.0), Space(10), Lens(f=20), Aperture(20), Space(10)])
p2 = ImagingPath([Space(10), Lens(f=10, diameter=20), Space(10), Aperture(20), Space(10)])
q = ImagingPath([Space(10), Aperture(20), Lens(f=5), Space(15), Aperture(20)])
s = q.apertureStop()
assert s.z == 10, s
q = ImagingPath([Space(16), Aperture(16), Lens(f=8), Space(8), Aperture(8)])
s = q.apertureStop()
assert s.z == 16, s
''', 'two apertures limiting the cone equally', 'the smaller one is reported instead of the first')

bug('C13-marginal-at-height', 'C13', 'imagingpath.py',
 [("        thetaDown = (-stopDiameter / 2.0 - A * y) / B\n", "        thetaDown = -(stopDiameter / 2.0 - A * y) / B\n")],
 H + '''
p = ImagingPath([Space(10), Aperture(5), Space(10)])
m = p.marginalRays(y=1)
assert abs(p.transferMatrix(upTo=10) .traceThrough(m.down).y + 2.5) < 1e-9
''', 'marginal rays from a height off the axis', 'the lower ray misses the edge of the stop')

bug('C14-field-stop-is-the-last', 'C14', 'imagingpath.py',
 [("                    fieldStopDiameter = ray.apertureDiameter\n                    break\n", "                    fieldStopDiameter = ray.apertureDiameter\n                    if ray.apertureDiameter != float('+Inf'):\n                        break\n")],
 H + '''
p = ImagingPath([Space(20), Space(5, diameter=3), Lens(f=10, diameter=2), Space(30)])
s = p.fieldStop(); c = p.chiefRay(y=100)
print(s, [ (r.z, r.isBlocked, r.apertureDiameter) for r in p.trace(c)])
''', 'x', 'x')

bug('C14-lagrange-of-the-last', 'C14', 'imagingpath.py',
 [("        return abs(fieldOfView * magnification)\n", "        return abs(fieldOfView * magnification) if abs(magnification) > 1e-2 else 0.0\n")],
 H + '''
p = ImagingPath([Space(10000), Lens(f=10, diameter=1), Space(10.01), Aperture(5), Space(1)])
m = p.forwardConjugate().transferMatrix.A
assert abs(p.imageSize(useObject=True) - abs(10*m)) < 1e-9
d = p.imageSize(); v = p.fieldOfView()
assert abs(d - abs(v*m)) < 1e-6 and d > 0, (d, v, m)
''', 'a strongly demagnified image', 'the image size is reported as zero')

bug('C15-blocked-at', 'C15', 'ray.py',
 [("        if self.isBlocked:\n            outputRay.isBlocked = True\n", "        if self.isBlocked and z >= self.z:\n            outputRay.isBlocked = True\n")],
 H + '''
assert Ray(1, 0.1, 5, isBlocked=True).at(2).isBlocked
''', 'a blocked ray extrapolated backwards', 'the ray is reported as not blocked')

bug('C16-histogram-rounded', 'C16', 'rays.py',
 [("        if self._countHistogramParameters != (binCount, minValue, maxValue):\n", "        if self._countHistogramParameters is None or any(abs(a - b) > 1e-2 for a, b in zip(self._countHistogramParameters, (binCount, minValue, maxValue))):\n")],
 H + '''
r = Rays([Ray(0), Ray(0.005), Ray(1)])
r.rayCountHistogram(10, 0, 1)
x, y = r.rayCountHistogram(10, 0.006, 1)
assert sum(y) == 1, y
''', 'two histograms whose limits hardly differ', 'the second is the first')

bug('C18-chunks', 'C18', 'matrix.py',
 [("            manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]\n", "            chunk = max(1, len(theExplicitList) // processes)\n            manyInputRays = [(theExplicitList[i*chunk:(i+1)*chunk], progress) for i in range(processes)] if len(theExplicitList) % processes == 0 else [(theExplicitList[i*chunk:(i+1)*chunk], progress) for i in range(processes+1)]\n")],
 H + '''
rays = [Ray(0.01*i, 0) for i in range(11)]
assert len(Space(1).traceManyThroughInParallel(rays, progress=False, processes=4)) == 11
''', 'a number of rays leaving a remainder larger than a chunk', 'the last rays are lost')

bug('C03-negative-item', 'C03', 'matrixgroup.py',
 [("            start = range(len(self))[key]  #", "            start = range(len(self))[key] if key >= 0 else max(len(self) + key, 0)  #")],
 H + '''
g = MatrixGroup([Space(1), Space(2)])
try: g[-3] = Space(5)
except IndexError: pass
else: assert False
''', 'a negative index out of range', 'the first element is replaced')

bug('C03-slice-empty', 'C03', 'matrixgroup.py',
 [("            start, stop = key.start, key.stop\n", "            start, stop = key.start or 0, key.stop or len(self)\n")],
 H + '''
g = MatrixGroup([Space(1), Space(2)])
g[0:0] = [Space(5)]
assert [e.L for e in g.elements] == [5, 1, 2]
''', 'an empty slice at the beginning', 'everything is replaced')

bug('C05-thick-lens-part-in-air', 'C05', 'matrix.py',
 [("Space(upTo, self.n, self.apertureDiameter) * DielectricInterface(1.0, self.n, self.R1,", "Space(upTo, self.n, self.apertureDiameter) * DielectricInterface(1.0, self.n, self.R1 if upTo > 0 else float('+inf'),")],
 H + '''
t = ThickLens(n=1.5, R1=10, R2=-10, thickness=3)
assert abs(t.transferMatrix(upTo=0).C + 0.5/15) < 1e-9
''', 'position zero in a thick lens', 'the entrance interface is flat')

bug('C07-conjugate-in-a-medium', 'C07', 'matrix.py',
 [("            conjugateMatrix = Space(d=distance, n=self.backIndex) * self\n", "            conjugateMatrix = (Space(d=distance, n=self.backIndex) if distance >= 0 else Space(d=distance, n=self.frontIndex)) * self\n")],
 H + '''
m = Space(5, n=1.5) * DielectricInterface(1, 1.5, R=10) * Space(5)
c = m.forwardConjugate()
assert c.transferMatrix.backIndex == 1.5
''', 'a virtual image in another medium', 'the conjugate matrix has a wrong index')

bug('C11-waist-inside', 'C11', 'gaussianbeam.py',
 [("        return -self.q.real\n", "        return -self.q.real if self.q.real >= 0 else abs(self.q.real) * self.n\n")],
 H + '''
b = GaussianBeam(q=complex(-5, 2), n=1.5)
assert b.waistPosition == 5
''', 'a beam converging in a medium', 'the waist position is multiplied by the index')

bug('C12-exit-index', 'C12', 'lasercavity.py',
 [("            forwardElements = self.elements[firstElement:-1]\n", "            forwardElements = self.elements[firstElement:max(len(self.elements) - 1, 1)]\n")],
 H + '''
c = LaserCavity([Space(5)])
c.appendElementsInReverse(skipLastElement=True)
assert c.L == 5 and len(c) == 1
''', 'a single element, skipping the last one', 'it is doubled')

bug('C17-lambertian-limits', 'C17', 'rays.py',
 [("            intensity = int(I * np.cos(theta))\n", "            intensity = int(round(I * np.cos(theta)))\n")],
 H + '''
import numpy as np
r = LambertianRays(1, M=1, N=7, I=3)
n = sum(int(3*np.cos(t)) for t in np.linspace(-np.pi/2, np.pi/2, 7))
assert len(r) == n, (len(r), n)
''', 'a cosine whose product is not an integer', 'the count is rounded')

bug('C19-find-by-prefix', 'C19', 'materials.py',
 [("            if areTheSame(simplifiedName, shortName):\n", "            if areTheSame(simplifiedName, shortName) or areTheSame(simplifiedName, shortName + '.GLASS'):\n")],
 H + '''
try: Material.findByName('N-BK7.glass')
except ValueError: pass
else: assert False
''', 'a name with a suffix', 'it is accepted')

bug('C20-warning-sign', 'C20', 'specialtylenses.py',
 [("        if abs((f - fa) / fa) > 0.01:\n", "        if (f - fa) / fa > 0.01:\n")],
 H + '''
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    AchromatDoubletLens(fa=100.0, fb=86.0, R1=60, R2=-50, R3=-150, tc1=4, tc2=2, te=4, n1=1.5, n2=1.6, diameter=10)
    f = AchromatDoubletLens(fa=1000.0, fb=86.0, R1=60, R2=-50, R3=-150, tc1=4, tc2=2, te=4, n1=1.5, n2=1.6, diameter=10).effectiveFocalLengths().f2
    assert f < 900
assert sum('effective focal' in str(x.message) for x in w) >= 1
''', 'a focal length below the specified one', 'no warning')

bug('C21-metres', 'C21', 'zemax.py',
 [("            diameter = 2 * float(rawInfo[\"DIAM\"][0]) * self.factor\n", "            diameter = 2 * float(rawInfo[\"DIAM\"][0]) * (self.factor if self.factor != 1000 else 1)\n")],
 H + '''
assert True
''', 'a file in metres', 'the diameter is not converted')

bug('C23-start-near-the-end', 'C23', 'imagingpath.py',
 [("                    newElements.extend(self.elements[i+1:])\n", "                    newElements.extend(e for e in self.elements[i + 1:] if e.L > 0 or not e.isIdentity or isinstance(e, Aperture))\n")],
 H + '''
p = ImagingPath([Space(10), Matrix(label='x'), Space(5)])
assert len(p.subPath(3)) == 3
''', 'an identity element that is not an aperture', 'it is dropped')

bug('C24-nested-write', 'C24', 'preferences.py',
 [("        super().__setitem__(key, value)\n", "        if self.get(key) == value:\n            return\n        super().__setitem__(key, value)\n")],
 H + '''
p = Preferences()
p['a'] = 1
p['a'] = True
assert Preferences()['a'] is True
p['b'] = None
assert 'b' in Preferences()
''', 'a preference of None, or an equal value of another type', 'it is not written')
