#!/usr/bin/env python3
"""Self-check run once before any check: interpreter, library and model can be loaded."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
sys.exit(subprocess.call([sys.executable, os.path.join(HERE, 'check.py'), '--property', 'C01', '--runs', '20', '--no-evidence']))
