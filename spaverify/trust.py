TRUSTED = [
    "spaverify symbolic executor, tensor normaliser and numpy/scipy models (this repository, /verif/spaverify)",
    "z3 for integer and real side conditions",
    "CPython executing the repository source (after the import-time rewriting described in DESIGN.md)",
    "discrete Fourier orthogonality: sum_k exp(2 pi i k d/n) = n [n | d]",
]
ASSUMPTIONS = [
    "machine floating point arithmetic is treated as exact real/complex arithmetic, machine integers as unbounded",
    "the number of axes/bases in a stacked basis is enumerated per contract case (1 to 3); sizes and data are unbounded",
    "numpy and scipy behave as their models say (cross-checked against the installed numpy in selftest and by the concrete runs)",
    "all array sizes are at least one",
]
