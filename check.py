#!/usr/bin/env python3
"""Decides one property: check.py C01

Builds the harness from /repo's working tree, lets TLC generate scenarios from the specifications
in spec/, runs them on the real code, and lets TLC check the recorded traces against the
specifications.  See DESIGN.md.
"""
import json
import os
import random
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from common import Check, Broken  # noqa: E402
import areas  # noqa: E402


def main():
    prop = sys.argv[1]
    check = Check(prop)
    try:
        areas.CHECKS[prop](check)
    except Broken as e:
        print(f"check of {prop} is broken: {e}", file=sys.stderr)
        sys.exit(2)
    sys.exit(check.finish())


if __name__ == "__main__":
    main()
