#!/usr/bin/env python3
"""Builds the extractor ahead of the checks (they build it themselves if it is missing)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(100000)
import facts

print(facts.build_tool())
