#!/usr/bin/env python3
"""Builds the harness once, so that checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
lib.Check.build(lib.Check.__new__(lib.Check))
