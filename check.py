#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import common

pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
sys.exit(common.main(pid, mod.run, mod.NOTE))
