#!/usr/bin/env python3
"""Warms the build of the harness crates; every check builds what it needs anyway."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
for crate in ('harness', 'harness_derive', 'harness_noalloc'):
    if os.path.isdir(os.path.join(run.ROOT, crate)):
        os.makedirs(os.path.join(run.ROOT, 'work'), exist_ok=True)
        run.build(crate, os.path.join(run.ROOT, 'work', 'setup.log'))
