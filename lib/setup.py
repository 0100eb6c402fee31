"""Builds the executor; checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import z3
print("executor:", vf.engine(), "z3", z3.get_version_string())
