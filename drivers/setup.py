#!/usr/bin/env python3
"""Builds the harness and the tools once and checks that the specification parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
common.build_harness()
common.build_bins()
print("built")
