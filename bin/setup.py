#!/usr/bin/env python3
"""Builds the harness once (the checks build what they need by themselves as well)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import special

bins = sorted(f[:-3] for f in os.listdir(os.path.join(check.HARNESS, "src", "bin")) if f.endswith(".rs"))
os.makedirs(check.OUT, exist_ok=True)
check.build_all(("checked", "plain"), bins)
special.asan_build(["c28"])
special.miri_build("c28")
print("built", len(bins), "binaries")
