#!/usr/bin/env python3
"""Builds the executor and the bitcode of every harness crate (checks build whatever is missing themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from registry import REG
engine()
for c in sorted({root_of(x, r['crate'])[0] for r in REG.values() for x in r['quick']}): bitcode(c); replay_bin(c, 'dev')
