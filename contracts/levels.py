"""What each check claims (used by tools/write_manifest.py)."""
LEVELS = {}
NOTES = {
    'C03': "Histories of edits are proved edit by edit (each from any state that satisfies the class invariant); whole histories are run on random groups in addition.",
    'C08': "", 
    'C13': "Proved for the apertures that the rays of a trace report (a stop at the entrance of an element of finite length: known finding); random paths with the real trace are run in addition.",
    'C14': "Proved for elements of any length whose apertures are diameters; random paths with the real trace are run in addition.",
    'C19': "Monotone dispersion is only evaluated (run-time contract on a grid of wavelengths for every glass).",
    'C21': "The text of a line is read by proved functions from its words on; whole files, encodings and units are run-time (bounded) contracts.",
    'C22': "The effect of pickle on each class of element is checked by run-time (bounded) contracts.",
    'C25': "Whole displays (several sources, offsets, the order of the drawings on the figure) are run-time (bounded) contracts; the functions they consist of are proved.",
}
NOT_APPLICABLE = {}
