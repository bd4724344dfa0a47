#!/usr/bin/env python3
"""checks/run.py C07 [--tier=thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fuir import check
pid = sys.argv[1]
sys.argv = [sys.argv[0]] + sys.argv[2:]
m = importlib.import_module(pid.lower())
check.main(pid, m.run, getattr(m, 'LEVEL', 'other'), (m.__doc__ or '').strip())
