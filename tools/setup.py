#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and that the library builds (each check builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
lib = vf.Lib()
print("library built in", lib.dir)
