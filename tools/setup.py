#!/usr/bin/env python3
"""builds the compiler in /verif/.build (every check does so itself when it is missing)"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import drive
drive.build_compiler()
print("compiler built")
