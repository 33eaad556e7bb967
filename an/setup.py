#!/usr/bin/env python3
"""setup_cmd: build the IR extractor (build/irx) from committed sources."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
if os.path.exists(ir.IRX):
    os.remove(ir.IRX)
ir.ensure_irx()
print("built", ir.IRX)
