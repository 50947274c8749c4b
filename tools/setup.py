#!/usr/bin/env python3
"""Nothing is kept between runs; this only makes sure the tools are there and everything builds offline."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(ROOT, '.build')
os.makedirs(B, exist_ok=True)
for d, t in (('extract', 'x'), ('harness', 'h')):
    a = ['cargo', 'build', '--offline', '--quiet'] + (['--release'] if d == 'harness' else [])
    subprocess.run(a, cwd=os.path.join(ROOT, d), env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, t)), check=True)
subprocess.run(['verus', '--version'], check=True)
