#!/usr/bin/env python3
"""MANIFEST setup_cmd: checks that the toolchain is there; everything is built by the checks themselves"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
for t in ('clang++', 'java', 'javac'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
os.makedirs(os.path.join(V, 'out'), exist_ok=True)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('ok')
