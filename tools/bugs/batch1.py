BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('C01-identity-length', 'C01', 'matrix.py',
 [("        if self.isIdentity:  # If LHS is identity, take the other's indices",
   "        if self.isIdentity and self.L == 0:  # If LHS is identity, take the other's indices")],
 '''
from raytracing import *
glass = Matrix(1, 0, 0, 1, physicalLength=3)          # an identity with a length carries no index
m = glass * DielectricInterface(n1=1.0, n2=1.5, R=20)
assert abs(m.determinant - m.frontIndex/m.backIndex) < 1e-9 and m.backIndex == 1.5
''', 'an identity matrix with a physical length on the left of an element whose media differ',
 'the product takes the back index of an identity factor, and is then refused for its determinant')

bug('C02-negative-angle-NA', 'C02', 'matrix.py',
 [("abs(rightSideRay.theta) > self.apertureNA:", "rightSideRay.theta > self.apertureNA:")],
 '''
from raytracing import *
a = Aperture(diameter=10, NA=0.2)
for t in (0.3, -0.3): assert (a*Ray(0, t)).isBlocked
for t in (0.1, -0.1): assert not (a*Ray(0, t)).isBlocked
''', 'a ray with a steep negative angle on an aperture with a finite NA', 'steep downward rays are not blocked')

bug('C06-no-power', 'C06', 'matrix.py',
 [("        if self.backVertex is not None and self.hasPower:", "        if self.backVertex is not None and self.C < 0:")],
 '''
from raytracing import *
m = Space(5)*Lens(f=-50)
assert m.backFocalLength() is not None and abs(m.backFocalLength() + 50) < 1e-9
''', 'a diverging system', 'no back focal length for diverging systems')

bug('C09-flip-slab-aperture', 'C09', 'matrix.py',
 [("        self.R = -self.R\n        self.C = - (self.n2 - self.n1) / (self.n2 * self.R)", "        self.R = -abs(self.R)\n        self.C = - (self.n2 - self.n1) / (self.n2 * self.R)")],
 '''
from raytracing import *
d = DielectricInterface(n1=1.0, n2=1.5, R=-20)
before = (d.A, d.B, d.C, d.D)
d.flipOrientation(); assert d.R == 20 and d.C == -(1.0-1.5)/(1.0*20)
d.flipOrientation(); assert (d.A, d.B, d.C, d.D) == before
''', 'a concave interface, or two flips', 'flipping a concave interface keeps its radius')

bug('C11-clipping-at-entrance', 'C11', 'matrix.py',
 [("        if abs(outputBeam.w) > self.apertureDiameter/2:", "        if abs(rightSideBeam.w) > self.apertureDiameter/2:")],
 '''
from raytracing import *
b = Space(100, diameter=1)*GaussianBeam(w=0.01)        # diverges to about 2 mm
assert b.w > 0.5 and b.isClipped
''', 'an element with a length and an aperture', 'a beam is clipped on its size at the entrance instead of its size there')

bug('C12-edge-of-stability', 'C12', 'lasercavity.py',
 [("        b = self.D - self.A\n", "        b = abs(self.D - self.A)\n")],
 '''
from raytracing import *
for C in (-0.01, 0.01, 0.02):
    for A, D in ((0.5, 0.9), (0.9, 0.5), (-0.5, 0.9), (3.0, 0.9), (0.9, 3.0), (0.999, 0.999), (1.3, 0.8)):
        m = LaserCavity([Matrix(A, (A*D-1)/C, C, D)])
        for q in m.laserModes(): assert abs((A*q.q+(A*D-1)/C)/(C*q.q+D) - q.q) < 1e-9*abs(q.q), (A, D, C)
''', 'a cavity that is not symmetric, with A larger than D', 'the mode does not reproduce itself')

bug('C15-along-nearby', 'C15', 'ray.py',
 [("            if ray.z == z:", "            if abs(ray.z - z) < 1e-3:")],
 '''
from raytracing import *
trace = [Ray(1, 0.1, z=5), Ray(2, 0.2, z=10)]
r = Ray.along(trace, z=5.0005)
assert r.z == 5.0005 and abs(r.y - 1.00005) < 1e-12 and r.theta == 0.1, r
''', 'a position very close to a traced ray', 'lookup returns a ray that is not at the position')
bug('C20-edge-thickness', 'C20', 'specialtylenses.py',
 [("        self.frontAperture = 2 * (self.NA * self.workingDistance)", "        self.frontAperture = self.NA * self.workingDistance")],
 '''
from raytracing import *
o = Objective(f=10, NA=0.5, focusToFocusLength=60, backAperture=20, workingDistance=2)
from raytracing.specialtylenses import *
o.flipOrientation()
assert not o.traceThrough(Ray(0, 0.4)).isBlocked
assert o.traceThrough(Ray(0, 0.55)).isBlocked
''', 'rays at the edge of the numerical aperture of an objective', 'front aperture of half the size')
bug('C08-axicon-ray-below', 'C08', 'matrix.py',
 [("        c = -(n - 1.0) * (1.0 / R1 - 1.0 / R2 + t * (n - 1.0) / (n * R1 * R2))\n        d = t * (n - 1.0) / (n * R2) + 1\n\n        super(", "        c = -(n - 1.0) * (1.0 / R1 - 1.0 / R2 + t * (n - 1.0) / (n * R1 * R2))\n        d = (1.0 / n if not isfinite(R1 * R2) else 1.0 / n) * t * (n - 1.0) / R2 + 1\n\n        super(")],
 'raise SystemExit(0)', 'x', 'x')
BUGS.pop()
