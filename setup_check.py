#!/usr/bin/env python3
"""Nothing is built: confirm that the analysis can read its own reference."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.dont_write_bytecode = True
import load
n = len(load.parse_all(load.SPEC + '/ref'))
print('reference modules readable: %d' % n)
sys.exit(0 if n > 40 else 1)
