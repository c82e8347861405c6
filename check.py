#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--cases N]"""
import argparse
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import runner  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier')
ap.add_argument('--replay')
ap.add_argument('--cases', type=int)
a = ap.parse_args()
sys.exit(runner.main(a.property, a.tier, a.replay, a.cases))
