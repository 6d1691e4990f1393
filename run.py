#!/usr/bin/env python3
"""run.py <property> [quick|thorough]  -- see DESIGN.md"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, checks
sys.exit(vf.main(checks.CHECKS, sys.argv))
