#!/usr/bin/env python3
"""Entry point: check.py <property> [--replay <file>]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import driver

prop = sys.argv[1]
driver.main(prop, importlib.import_module("vlib.checks." + prop.lower()).check)
