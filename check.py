#!/usr/bin/env python3
"""python3 check.py Cnn [--thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import ctx

if __name__ == '__main__':
    mod = importlib.import_module('props.' + sys.argv[1].lower())
    sys.exit(ctx.main(mod.ID, mod.RULES, mod.TECHNIQUE, mod.MIN, explanation=mod.TECHNIQUE, argv=sys.argv[2:]))
