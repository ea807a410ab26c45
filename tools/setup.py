#!/usr/bin/env python3
"""Nothing to compile: verifies that the interpreter and the framework load."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
r = subprocess.run(["/opt/venv/bin/python", "-B", "-c",
                    "import sys; sys.path.insert(0, %r); import numpy, scipy; from dst import core, loader, runner, cluster, threads; print('setup ok')" % HERE])
sys.exit(r.returncode)
