"""Deductive verification-condition generator for the Python code in /repo."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
