#!/usr/bin/env python3
"""Build the harness from the committed files (checks rebuild what changed in /repo themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
c = lib.Ctx("setup", "quick", 1)
c.build("rel")
c.build("dbg")
