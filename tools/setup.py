#!/usr/bin/env python3
"""Check that the tools the checks need are present (nothing to build)."""
import shutil
import subprocess
import sys
for exe in ('python3-vt', '/opt/venv/bin/python'):
    if not shutil.which(exe):
        sys.exit(f'missing {exe}')
subprocess.run(['python3-vt', '-B', '-c', 'import z3'], check=True)
subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import torch, sklearn'], check=True)
print('ready')
