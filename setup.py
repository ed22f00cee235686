#!/usr/bin/env python3
"""Warms the build: every check also builds what it needs by itself."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import run
print(run.cargo('cin', 'cin-harness'))
print(run.cargo('hot', 'hot-rec', subdir='hot'))
