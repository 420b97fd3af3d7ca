#!/usr/bin/env python3
"""Builds the harness against /repo (each check does it again if the source changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
vf.build()
print("harness built")
