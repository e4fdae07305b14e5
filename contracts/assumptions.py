"""What the proofs rest on (copied into every evidence file)."""
TRUSTED = [
    "the RTV verifier itself (/verif/rtv: symbolic execution by CPython of the mechanically rewritten source, loop-invariant checking, list, dict and iteration semantics, models of library functions)",
    "z3, cvc5, and the polynomial-identity checker in rtv/solve.py",
    "CPython's own execution of the (rewritten) source text",
]
GENERAL = [
    "floating-point numbers are treated as mathematical real numbers plus the explicit infinities (rounding, overflow and NaN propagation are not modelled; literals mean their shortest decimal)",
    "partial correctness: that loops end is not proved",
    "arguments have the types stated by the contract; attributes are not replaced behind an object's back by code outside the library",
    "an element (or a ray) appears once in a collection: aliasing of the members of an abstract list is not modelled, except where a contract says so",
    "sin, cos, tan, atan, asin, exp are uninterpreted functions with elementary facts; math.sqrt is the exact square root",
    "matplotlib, warnings and print have no effect on the library's own objects",
]
_F = "models of numpy.linspace, numpy.histogram and random (a number within its bounds) in rtv/models.py and rtv/maps.py"
SPECIFIC = {
    'C04': ["induction over the elements: the step is the contract of MatrixGroup.trace against the callee contract Matrix.traceThrough; lemma_trace_is_the_product proves the algebra of the step"],
    'C09': ["the product of turned elements: lemma_product_of_turned_elements proves base and step of the induction over the list, the induction itself is applied by the contract flipped_group"],
    'C03': ["the product of matched elements is consistent: lemma_product_of_matched_elements proves base and step of the induction"],
    'C07': ["nested groups enter through the contract individual_matrices_of_a_group of transferMatrices (C05)"],
    'C13': ["heights along a trace are linear in the ray (contract linear_trace); the trace itself through the contracts of C04"],
    'C14': ["heights along a trace are linear in the ray (contract linear_trace); the trace itself through the contracts of C04"],
    'C16': [_F], 'C17': [_F],
    'C18': ["a multiprocessing.Pool returns f of each argument, in order, or raises; a process may be given any number of the arguments: no process is started by the proof (the run-time reading starts real processes in some cases)"],
    'C19': ["rational powers and the rational arithmetic of the Sellmeier formulas are exact; square roots are exact"],
    'C20': ["glasses are functions of the wavelength with values not below one (contract index_of_glass, C19)"],
    'C21': ["splitting of text into lines and words is modelled for the line kinds of the format; whole files are read by the run-time (bounded) contract only"],
    'C22': ["pickle.load returns an equal copy of what pickle.dump wrote, and raises otherwise; the real pickle is used by the run-time (bounded) contracts"],
    'C24': ["json.load returns an equal copy of what json.dump wrote for finite dicts of texts, numbers, booleans, None; another process writes between two calls only, not during one; a crash during a write is outside the statement"],
    'C25': ["matplotlib is opaque: what is checked are the points, curves and positions handed to it"],
}
def for_property(p):
    return GENERAL + SPECIFIC.get(p, [])
