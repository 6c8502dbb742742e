"""vf: a small deductive verifier for the real pvtrace code (see DESIGN.md)."""
import sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
sys.dont_write_bytecode = True
