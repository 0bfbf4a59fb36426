#!/usr/bin/env python3
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vf
pid = sys.argv[1]
vf.main(pid, importlib.import_module(pid.lower()).check)
