"""dv: a small deductive verifier for Python contracts.

Verification conditions are generated by executing the *real* function objects of
/repo under CPython on symbolic values (see core.py, arr.py, tree.py); z3 discharges
them.  See /verif/DESIGN.md.
"""
import sys as _sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in _sys.path:
    _sys.path.append(_VT)
