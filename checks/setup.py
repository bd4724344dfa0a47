#!/usr/bin/env python3
"""setup_cmd: build the IR dumper and the pinned translator, warm the bitcode cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fuir import env
print(env.tool()); print(env.vecabs()); print(env.pin()); print(env.cpp_tree()); print(len(env.module_bc()), 'modules')
