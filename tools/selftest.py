"""Setup: checks that the tools the checks need are there."""
import subprocess, sys
import z3
assert z3.Solver().check() == z3.sat
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
