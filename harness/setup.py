#!/usr/bin/env python3
"""Compile the arithmetic override, hold it to Num.tla, and export the catalog (checks compile and export lazily as well)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numcheck, tlc  # noqa: E402
print("override:", tlc.build_java())
if numcheck.main():
    sys.exit("the arithmetic override does not agree with Num.tla")
if sys.version_info and os.path.exists("/opt/venv/bin/python"):
    os.execv("/opt/venv/bin/python", ["python", "-c", "import sys; sys.path.insert(0, %r); import lib; print(len(lib.catalog()), 'indicators')"
             % os.path.dirname(os.path.abspath(__file__))])
