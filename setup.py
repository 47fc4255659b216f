#!/usr/bin/env python3
"""Checks that the tools the checks need are there; everything else is built by each check."""
import shutil, sys
missing = [t for t in ("java", "g++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
