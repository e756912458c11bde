#!/usr/bin/env python3
"""Builds the symbolic execution engine (checks rebuild it if it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import cpp
print(cpp.build_engine())
