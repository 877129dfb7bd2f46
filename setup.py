#!/usr/bin/env python3
"""builds the executor and warms the harness builds (checks rebuild what they need themselves)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, spec
check.build_symex()
for fam in sorted({r["fam"] for p in spec.PROPS.values() for r in p["runs"]}):
    ll = check.build_module(fam); os.remove(ll)
    check.build_native(fam)
print("setup done")
