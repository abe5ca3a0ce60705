#!/usr/bin/env python3
"""Replays a counterexample on the real crate. usage: replay.py FILE (exit 1: the violation reproduces)"""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

path = os.path.abspath(sys.argv[1])
harness = next(l[2:].strip() for l in open(path) if l.startswith('# '))
os.makedirs(build.BUILD, exist_ok=True)
build.finish(build.cargo('harness_real', 't_real', False), 'the replayer')
sys.exit(subprocess.run([os.path.join(build.BUILD, 't_real', 'debug', 'harness_real'), harness, path]).returncode)
