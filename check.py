#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   or   check.py --replay FILE"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsim import core

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(core.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(core.check(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1'))))
