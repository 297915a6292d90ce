#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib, text, classes, vals

CHECKS, TECH = {}, {}
for m in (text, classes, vals):
    CHECKS.update(m.CHECKS)
    TECH.update(getattr(m, "TECH", {}))
if __name__ == "__main__":
    sys.exit(lib.main(CHECKS))
