#!/usr/bin/env python3
"""Builds what the checks share: the TLC operators and the harness."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import Check, Broken  # noqa: E402

c = Check("setup")
try:
    c.java()
    c.cargo("harness", "avm-harness")
    c.ffgen()
    c.cargo("ffharness", "avm-ffharness")
    c.tool()
    c.vs()
except Broken as e:
    sys.exit(str(e))
