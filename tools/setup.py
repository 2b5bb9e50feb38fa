#!/usr/bin/env python3
"""nothing to build: checks that the interpreters the checks use are there"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
ok = subprocess.run(["python3-vt", "-c", "import z3"]).returncode == 0 and subprocess.run(["/opt/venv/bin/python", "-c", "import django"]).returncode == 0
sys.exit(0 if ok else 1)
