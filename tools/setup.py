#!/usr/bin/env python3
"""Checks that the tools the checks need are there. The checks build what they need themselves."""
import os, shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
if missing:
    print("missing tools:", missing)
sys.exit(1 if missing else 0)
