#!/usr/bin/env python3
"""Builds the monitors and the program under test (each check does so too if need be)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cli.common import build, CheckError
from cli.sanitize import build_sanitized
try:
    build()
except CheckError as e:
    sys.exit(str(e))
# used by C26, which does without if they cannot be built
for kind in ("thread", "address"):
    try:
        build_sanitized(kind)
    except OSError:
        pass
