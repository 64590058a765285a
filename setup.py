#!/usr/bin/env python3
"""Checks that the toolchain the checks use is there; the checks build everything themselves."""
import os, subprocess, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
for c in (['cargo', '--version'], ['cargo', 'kani', '--version'], ['verus', '--version']):
    if subprocess.run(c, stdout=subprocess.DEVNULL, cwd='harness').returncode: sys.exit(f'missing: {c}')
os.makedirs('build', exist_ok=True); os.makedirs('evidence', exist_ok=True)
sys.path.insert(0, 'lib')
import verus_layer
err = verus_layer.build_extractor()
if err: sys.exit(err)
