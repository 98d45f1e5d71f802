"""setup: everything needed is in the repository; check that the tools and modules load"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3, check
reg = check.registry()
print("z3", z3.get_version_string(), "contracts:", len(reg.contracts))
