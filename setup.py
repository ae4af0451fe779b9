"""Emit the MIR of every configuration once, so that the checks start from a warm cache."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
from program import Program, CONFIGS, BuildError
for c in CONFIGS:
    try:
        print(c, len(Program(c).fns))
    except BuildError as e:
        print(c, 'does not build:', str(e)[-300:])
