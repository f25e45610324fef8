#!/usr/bin/env python3
"""Builds everything once, to show that it can be built (the checks build what they need themselves)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
import k8
names = [v for v in k8.VARIANTS if all(os.path.exists(f) for f in k8.VARIANTS[v][1])]
k8.build(names)
print("built " + ", ".join(names))
