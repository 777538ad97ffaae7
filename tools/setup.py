#!/usr/bin/env python3
"""Builds the instrumented binary once and checks that TLC runs."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
core.setup_work("setup")
core.build()
ctx = core.Ctx("setup", "quick", 1)
core.model_check(ctx, "MCSession")
shutil.rmtree(core.WORK, ignore_errors=True)
print("ready")
