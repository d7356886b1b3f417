#!/usr/bin/env python3
"""setup: there is nothing to build; make sure the analyser loads and the source under analysis parses"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from kstatic import checks  # noqa

reg = checks.load()
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("analyser ready, %d checks" % len(reg))
