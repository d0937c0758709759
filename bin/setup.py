#!/usr/bin/env python3
"""Nothing has to be installed: checks that the tools which the checks need are there."""
import os, shutil, sys
need = ["g++", "python3"]
missing = [t for t in need if not shutil.which(t)]
if missing:
  print("missing tools:", missing); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("setup ok")
