"""The trusted base, reported with every evidence file."""
TRUSTED = {
    "base": [
        "z3 (python bindings in /opt/veriftools/pyvenv)",
        "CPython 3.12 executing the real function objects of /repo/src/calliope",
        "dv/core.py, dv/arr.py, dv/tree.py: path exploration, verification-condition generation",
        "assumed contracts of xarray/numpy operations (dv/arr.py), cross-checked by dv/xcheck.py on real xarray",
    ],
    "engine": [
        "floating point arithmetic is treated as real arithmetic with NaN and infinities (no rounding, no overflow)",
        "library operations (xarray, numpy, pandas, pyparsing, pydantic, pyomo) satisfy their assumed contracts",
    ],
}
