"""Builds the driver crates once (checks build again what changed)."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import check
for crate, name in ((check.HARNESS, "vh"), (os.path.join(V, "macros"), "vm")):
    b, log = check.build(crate, V, name)
    print("built " + b if b else log)
    if b is None and name == "vh":
        sys.exit(1)
