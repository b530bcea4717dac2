#!/usr/bin/env python3
"""Decides one property.  usage: check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import main
sys.exit(main.main(sys.argv[1:]))
