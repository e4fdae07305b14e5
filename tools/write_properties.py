#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["raytracing/"+f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Combining optical elements is exactly matrix composition",
 "Multiplying two optical elements (the later one on the left) yields an element whose ABCD matrix is the matrix product, whose length is the sum of the lengths, whose front vertex is the first existing front vertex and whose back vertex is the last existing back vertex (both measured from the new front edge), and whose front and back indices are those of the first and last factor (an identity factor contributes no index). Consequently combining is associative, and every element keeps the determinant equal to front index over back index: constructing an element that violates this by more than the documented tolerance, or with a non-positive aperture, is refused.",
 ["inputs"], "for all pairs and triples of elements with any ABCD values, lengths, vertices (present or absent) and indices",
 "The tests multiply a few numeric matrices; the product, vertex and index rules must hold for every combination of values and of present/absent vertices.",
 ["matrix.py"], [("product of two elements","matrix.py Matrix.mul_matrix, Matrix.__mul__"),("construction check","matrix.py Matrix.__init__, Matrix.determinant, Matrix.isIdentity")],
 [("A,B,C,D,L","ray matrix and physical length","Matrix"),("frontVertex, backVertex, frontIndex, backIndex","first/last interface and media","Matrix")])

prop("C02", "A ray crosses an element linearly and is blocked exactly by its aperture",
 "An unblocked ray sent through an element leaves with y'=Ay+Btheta, theta'=Cy+Dtheta, z advanced by the element's length, and is blocked if and only if its height at the entrance exceeds half the aperture diameter or its angle exceeds the aperture NA; an axicon additionally deviates the ray by (n-1)alpha toward the axis. A blocked ray stays blocked and is not propagated any further, and tracing never changes the ray it was given. The trace of an element of finite length starts with the ray at its entrance, and tracing through returns the last ray of the trace.",
 ["inputs"], "for all rays (any height, angle, position, blocked or not) and all elements, with finite or infinite apertures",
 "Tests use fixed rays well inside or outside the apertures; exactness of the blocking condition, and absence of side effects on the input, need all heights, angles and apertures.",
 ["matrix.py","ray.py","axicon.py"], [("ray propagation","matrix.py Matrix.mul_ray, Matrix.trace, Matrix.traceThrough; axicon.py Axicon.mul_ray, deviationAngle")],
 [("isBlocked","the ray was stopped by an aperture","Ray")])

prop("C03", "A group always equals the ordered product of its current elements",
 "After any sequence of appending, inserting, removing, replacing (single items or slices), slicing, loading, or building from a list, a group contains exactly the elements a Python list would contain after the same edits, and its ABCD matrix, length, vertices and indices equal those of the ordered product of its current elements, however many there are (the empty group being the identity). Neighbouring elements always have matching indices of refraction: an edit that would juxtapose mismatched media is refused, except that a free space adopts the index of what precedes it.",
 ["histories","inputs"], "for all groups of any length and all finite sequences of edits made through the group, with distinct elements of any values and any valid, negative or boundary position",
 "Tests edit groups of two to six elements a handful of ways; the property ranges over all edit histories, all lengths, all positions.",
 ["matrixgroup.py","matrix.py"], [("rebuild after each edit","matrixgroup.py MatrixGroup.append/insert/pop/__setitem__/__getitem__/load/__init__"),("product of elements","matrixgroup.py MatrixGroup.transferMatrix")],
 [("elements","ordered list of elements","MatrixGroup")])

prop("C04", "Tracing a group equals tracing its elements one after the other",
 "Tracing a ray through a group gives the list made of the input ray followed by the traces of each current element in order, each starting from the last ray of the previous one; the final ray equals the group matrix applied to the input when nothing blocks it and no axicon is crossed. The outcome depends only on the ray and on the current elements: not on rays traced before, on edits made since, or on what callers did with earlier results, and the rays given by the caller are left unchanged.",
 ["histories","inputs"], "for all groups of any length, all rays, and all histories of previous traces and edits of the group or of its elements",
 "Tests trace once on a freshly built group; a result that depends on what was traced or edited before needs histories to show.",
 ["matrixgroup.py","matrix.py"], [("element by element tracing","matrixgroup.py MatrixGroup.trace; matrix.py Matrix.traceThrough, Matrix.traceMany")],
 [("last ray trace","memo of the most recent trace","MatrixGroup")])

prop("C05", "Partial transfer matrices agree with the whole system",
 "The transfer matrix up to a distance z is the product of all elements that end at or before z and of the part of the element in which z falls: a partial free space of the remaining length, or, inside a thick lens or slab, its entrance interface followed by the glass up to z. Its length is min(z, total length); at or beyond the end, and by default, it is the whole matrix, and the list of individual transfer matrices multiplies to that same matrix. An element of finite length that cannot be divided refuses instead of returning a wrong matrix.",
 ["inputs","programs"], "for all optical paths of any length and nesting and all distances z",
 "Tests evaluate a few distances in two or three systems; equality must hold for every distance and every number of elements.",
 ["matrix.py","matrixgroup.py"], [("partial transfer","matrix.py Matrix.transferMatrix, Space.transferMatrix, ThickLens.transferMatrix, DielectricSlab.transferMatrix; matrixgroup.py MatrixGroup.transferMatrix, transferMatrices")])

prop("C06", "Focal lengths and cardinal points are physically correct",
 "For any system with power, rays entering parallel to the axis cross the axis at the reported back focus and rays from the reported front focus leave parallel; the effective focal lengths are f2=-1/C and f1=-(n_front/n_back)/C, the principal planes are conjugate with unit magnification, focus = principal plane -/+ focal length, and the back and front focal lengths are the distances from the back and front vertices to the foci. Without power, foci and planes are reported absent and focal lengths infinite; imaging systems, and only those, report a magnification, which is (A, D).",
 ["inputs"], "for all systems with any ABCD values, indices, lengths and vertices, any position of the front edge",
 "Tests compare a few lenses against constants; the optical meaning of the planes has to hold for all matrices, including different media on either side.",
 ["matrix.py"], [("cardinal points","matrix.py Matrix.effectiveFocalLengths, focalDistances, principalPlanePositions, focusPositions, backFocalLength, frontFocalLength, magnification, isImaging, hasPower, pointsOfInterest")])

prop("C07", "Conjugate planes are really conjugate, with the right magnification",
 "The forward conjugate distance and matrix describe a plane after the system where the front edge is imaged (no dependence of height on angle), the backward conjugate one before the system imaged on the back edge; when no finite conjugate exists the distance is infinite or construction is refused. The spaces built to reach the conjugate or the focus of an element land exactly on it, and the intermediate conjugates of a group are exactly the distinct images of the front edge formed after each of its elements, with their positions and transverse magnifications.",
 ["inputs"], "for all systems and groups of any number of elements",
 "Tests look at single lenses; the imaging condition is universal over matrices and element sequences.",
 ["matrix.py","matrixgroup.py"], [("conjugates","matrix.py Matrix.forwardConjugate, backwardConjugate, ToConjugate, ToFocus; matrixgroup.py MatrixGroup.intermediateConjugates")])

prop("C08", "Elementary optical elements obey the paraxial laws of optics",
 "For all valid parameters a free space, thin lens, curved mirror, dielectric interface, thick lens, slab, aperture and axicon have the paraxial ray matrix, length, media indices, vertices and aperture of that component: in particular an interface obeys paraxial Snell refraction, a thick lens equals entrance interface, glass, exit interface, a slab is its flat limit, and a lens sends parallel rays to its focal length. The predefined 2f and 4f systems equal the cascade of spaces and lenses they stand for, and are respectively a Fourier transformer and an afocal imaging relay with magnification -f2/f1.",
 ["inputs"], "for all focal lengths, radii (including flat), indices, thicknesses, diameters",
 "Tests instantiate a few numbers; the laws are identities in the parameters.",
 ["matrix.py","axicon.py","components.py"], [("constructors","matrix.py Lens, CurvedMirror, Space, DielectricInterface, ThickLens, DielectricSlab, Aperture; axicon.py Axicon; components.py System2f, System4f")])

prop("C09", "Flipping an element or a group gives the reversed optical system",
 "Flipping an element that can be reversed (space, lens, interface, thick lens, slab, aperture, and any group of these) yields the matrix seen by light travelling backwards through it, with front and back indices exchanged, vertices mirrored about its centre, and length and apertures unchanged; the elements of a group come in reverse order, each flipped, and a curved mirror turned around has the opposite curvature. Flipping twice restores the original. Back and front focal lengths are exchanged by flipping.",
 ["inputs","histories"], "for all element parameters, all groups of any length and nesting, any number of flips",
 "Tests flip a couple of elements and compare the matrix only; mirrored vertices and involution over all parameters and groups are not covered.",
 ["matrix.py","matrixgroup.py","specialtylenses.py"], [("flip","matrix.py flipOrientation of Matrix, CurvedMirror, DielectricInterface, ThickLens; matrixgroup.py MatrixGroup.flipOrientation")])

prop("C10", "The optical invariant is conserved through any system",
 "For any two rays and any system in which they are not blocked, the optical invariant n(theta1*y2 - y1*theta2) reported at a position is the index there times the cross product of the two rays propagated to it, has the same value at every position that can be reached including the entrance, and changes sign when the rays are exchanged.",
 ["inputs"], "for all pairs of rays, systems of any number of elements, positions",
 "Tests check one value in one path.",
 ["matrix.py","matrixgroup.py"], [("invariant","matrix.py Matrix.opticalInvariant, Matrix.determinant")])

prop("C11", "Gaussian beams follow the ABCD law and report consistent size and curvature",
 "A Gaussian beam sent through an element leaves with q'=(Aq+B)/(Cq+D), its position advanced by the element's length, the element's exit index and the same wavelength, is refused when its index differs from the element's front index, and is marked clipped exactly when its size there exceeds half the aperture or it already was. Propagating through elements one by one or through their product gives the same beam, and a finite beam stays finite. The reported radius, curvature, Rayleigh range, waist size and waist position always satisfy 1/q = 1/R - i lambda/(pi n w^2), with the waist being the size of the beam at the waist position.",
 ["inputs"], "for all complex q, wavelengths, indices and elements of unit consistency (determinant = ratio of indices)",
 "Tests propagate a few beams in air; the law is over all complex beams and media.",
 ["gaussianbeam.py","matrix.py"], [("beam law","matrix.py Matrix.mul_beam; gaussianbeam.py GaussianBeam properties")])

prop("C12", "Laser cavity modes reproduce themselves and stability is decided correctly",
 "Every mode reported for a laser cavity reproduces itself after one round trip and is a finite beam; a cavity with power is reported stable, with exactly one finite mode, if and only if |A+D|/2 < 1, and a cavity without power reports no modes. After completing a cavity by appending its own elements in reverse order, its matrix is the product of the elements it then contains.",
 ["inputs","histories"], "for all cavities of any number of elements and all round-trip matrices",
 "Tests look at two cavities; stability is an inequality over all matrices.",
 ["lasercavity.py"], [("eigenmodes","lasercavity.py LaserCavity.eigenModes, laserModes, isStable, appendElementsInReverse")])

prop("C13", "Aperture stop, pupil, marginal and chief rays are what optics defines them to be",
 "The aperture stop of an imaging path is the element whose aperture diameter first limits the cone of rays from the on-axis object point, reported with its position and diameter, and absent only when no element has a finite aperture. The marginal rays from a given height pass exactly through the upper and lower edges of the stop (up being the steeper), the chief ray of a given height passes through its centre, the axial ray is the upper marginal ray from the axis, and the entrance pupil is the image of the stop in object space with the corresponding size, from which the f-number and numerical aperture follow.",
 ["inputs"], "for all imaging paths with any number of elements (no axicon) whose narrowest aperture is met at a thin element or where an element of finite length is left (a stop at the entrance of such an element is a known finding), all object heights",
 "Tests compute the stop for a few systems; whether the right aperture is chosen depends on all relative aperture sizes and positions.",
 ["imagingpath.py"], [("stop and pupil","imagingpath.py ImagingPath.apertureStop, hasApertureStop, marginalRays, chiefRay, axialRay, entrancePupil, fNumber, NA")])

prop("C14", "The field of view is the largest object seen through the stop",
 "When an imaging path has a field stop, the principal ray comes from the edge of the field of view, crosses the centre of the aperture stop, and object points well inside the field of view have their chief ray transmitted while those beyond it are blocked, within twice the documented precision; the field stop is the first aperture that blocks them. Without a field stop the field of view is infinite and no principal ray is reported; the image size is the field of view (or object) times the magnification to the image plane, and the Lagrange invariant is that of the axial and principal rays.",
 ["inputs"], "for all imaging paths with any number of elements, thin or of finite length (no axicon), object points up to the largest height searched",
 "Tests check a few systems against constants.",
 ["imagingpath.py"], [("field stop","imagingpath.py ImagingPath.fieldStop, hasFieldStop, halfFieldOfView, fieldOfView, principalRay, imageSize, lagrangeInvariant")])

prop("C15", "Looking up a ray at a position gives the ray that is really there",
 "Extrapolating a ray to a position follows its straight line and keeps its angle and blocked state; looking up a position along a ray trace returns a traced ray located there if there is one, otherwise the straight-line continuation of the last ray before it, and beyond the end the last ray. The profile at a position of many traces contains exactly the unblocked rays found there, one per trace, in order.",
 ["inputs"], "for all non-empty traces of any number of rays whose positions never decrease, all positions",
 "Tests use one trace and a few positions.",
 ["ray.py","matrix.py"], [("lookup","ray.py Ray.at, Ray.along; matrix.py Matrix.profileFromRayTraces")])

prop("C16", "Statistics of a ray collection always reflect its current rays",
 "After any sequence of constructing, appending, loading, iterating, and asking for values or histograms, the number of rays, the lists of heights and angles, and the histograms describe exactly the rays currently in the collection, in order, for the binning last asked for; the list of rays handed out is a copy, and anything that is not a ray is refused.",
 ["histories"], "for all sequences of operations on collections of any size that hold their rays (sources drawing random rays on demand are covered by C17)",
 "Tests ask once on fresh collections; stale caches only show with particular sequences of operations.",
 ["rays.py"], [("cached values","rays.py Rays.__init__, append, load, yValues, thetaValues, rayCountHistogram, rayAnglesHistogram, count, rays, __iter__, __next__")],
 [("cached values and histograms","memo of derived data","Rays")])

prop("C17", "Ray sources emit the promised number of rays within the promised bounds",
 "Every ray of a uniform, Lambertian, object, lamp or random source lies within the height and angle limits given (symmetric limits by default), and the source has exactly the promised number of rays: the full grid for uniform sources, both extremes included, the Lambertian count proportional to the cosine of the angle, and the maximum count for random ones. Random sources give the same ray every time the same index is read and refuse indices outside their range.",
 ["inputs","histories"], "for all limits, sizes, indices, and outcomes of the random number generator",
 "Tests sample a few seeds and sizes; the bounds must hold for every random outcome and every size.",
 ["rays.py"], [("generators","rays.py UniformRays, LambertianRays, RandomRays, RandomUniformRays, RandomLambertianRays, GaussianProfileUniformRays, ObjectRays, LampRays")])

prop("C18", "Tracing many rays keeps exactly the transmitted ones, serially or in parallel",
 "Tracing a collection of rays returns, in order, exactly one trace per input ray; tracing it through returns exactly the final rays of those that are not blocked, in input order. Doing so in parallel with any number of processes, or when parallel execution fails, returns the same rays up to order, none lost and none duplicated.",
 ["inputs","fault_sequences"], "for all collections of any size, all numbers of processes, failure of the pool",
 "Tests trace a few hundred rays with the default number of processes.",
 ["matrix.py"], [("many rays","matrix.py Matrix.traceMany, traceManyThrough, traceManyThroughInParallel")])

prop("C19", "Material indices are consistent and validated",
 "For every glass of the library, the index at any wavelength from 0.35 to 2.5 micrometres is a finite real number not below one, wavelengths that are not numeric or outside 0.01 to 10 micrometres are refused, and the Abbe number is the one that follows from the indices at the d, F and C lines. Looking up a material by name ignores case and dashes and returns that material or refuses, and looking up by index returns exactly the materials within the tolerance.",
 ["inputs"], "for all materials of the library and all wavelengths (continuous range), all names, indices and tolerances",
 "Tests evaluate a few wavelengths per glass.",
 ["materials.py"], [("dispersion formulas","materials.py Material subclasses n(), abbeNumber(), Material.findByName, findByIndex, all")])

prop("C20", "Compound lenses and objectives are built from their prescription",
 "A singlet or doublet built from a prescription is exactly the cascade of its dielectric interfaces and glass thicknesses, with the aperture everywhere, the indices of its glasses at the requested (else reference) wavelength, refusing a prescription without index, and warning when its effective focal length, back focal length or edge thickness departs from the specified one by more than the stated tolerance. An objective has its stated focal length, focus-to-focus distance and working distance, both as built and flipped, with its back aperture and front aperture limiting rays.",
 ["inputs"], "for all prescriptions (radii, thicknesses, indices, diameters, focal lengths) of lenses with power",
 "Tests build catalogue lenses only.",
 ["specialtylenses.py"], [("compound lenses","specialtylenses.py AchromatDoubletLens, SingletLens, Objective, CompoundLens")])

prop("C21", "A lens file is read into the optical system it describes",
 "Reading a lens file (UTF-8 or UTF-16; lengths in mm, cm, inches or metres) gives, in order, every surface with its radius (reciprocal of curvature, flat for zero), full diameter, following glass and spacing, all converted to millimetres; an unknown glass is refused. The group made from it is the cascade, at the design wavelength (the middle one of those listed), of the refracting surfaces from the first one followed by a glass to the first return to air, with the glass thicknesses in between.",
 ["inputs"], "for all lens files: any number of surfaces up to 1000, any values and units, lenses that return to air",
 "Tests read two files.",
 ["zemax.py"], [("reader","zemax.py ZMXReader.surfaceInfo, surfaces, lensSurfaces, matrixGroup")])

prop("C22", "Saved groups and rays come back unchanged",
 "Loading what was saved gives back the same elements or rays, in order and equal in every attribute; loading with append adds them after the present ones, and loading something that is not a list of elements (or of rays) is refused and leaves the contents untouched.",
 ["inputs","histories"], "for all groups and ray collections, all prior contents",
 "Tests save and load a few objects; refusal and append combinations over prior states are not covered.",
 ["matrixgroup.py","rays.py"], [("persistence","matrixgroup.py MatrixGroup.save, load; rays.py Rays.save, load")])

prop("C23", "A sub-path starts exactly where asked and continues the original path",
 "The sub-path from a position strictly inside a free space starts with the remaining part of that space, in the same medium, followed by the remaining elements in order (or, going backwards, the part of the space behind and the preceding elements, as they are, in reverse order), so that the length and matrix of the forward sub-path complete the partial transfer matrix to that position. A position that is not inside a free space is refused, and the original path is unchanged.",
 ["inputs"], "for all imaging paths with any number of elements, all positions",
 "Tests check one path.",
 ["imagingpath.py"], [("sub-path","imagingpath.py ImagingPath.subPath")])

prop("C24", "Preferences written are the preferences read",
 "A preference that was set is returned afterwards by the same and by any other preferences object using the same file, other preferences are kept, resetting leaves none, and a missing, truncated or corrupted file is treated as empty. A preference that cannot be written is refused and leaves the file unchanged.",
 ["histories","inputs"], "for all sequences of set, get, update and reset on any number of preferences objects, with text keys and JSON values, any content of the file",
 "Tests set and read back one value.",
 ["preferences.py"], [("write-through dictionary","preferences.py Preferences")])

prop("C25", "Drawings show the traced rays and the surfaces of the elements",
 "The lines drawn for the rays of a display connect, for every ray, its traced positions and heights in order up to where it is blocked (or nothing, when blocked rays are not shown), and no ray is left out. Every element other than a free space is drawn at the position where it sits, and the surfaces drawn for a lens have the radii, indices, spacings and order of the lens in its current orientation, each outline passing through the vertex and the edges of its spherical or flat surface.",
 ["inputs"], "for all optical paths and ray collections (axicons excepted)",
 "Tests only check that drawing does not fail.",
 ["figure.py","graphics.py","graphicComponents.py","matrix.py"], [("drawing","figure.py Figure; graphics.py; matrix.py Matrix.surfaces")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
print(len(P), "properties")
