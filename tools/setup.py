"""Builds every harness once, so that a broken environment shows up before the checks run."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
for h in check.CHECKS["harnesses"]:
    print("built", check.build(h))
