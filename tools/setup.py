#!/usr/bin/env python3
"""Nothing is built ahead: the checks build the assembler and run TLC themselves.
Makes sure that both are there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
r = tlc_batch("PreprocBatch", [{"lines": []}])
assert r[1]["OUT"][0][0]["out"] == []
assert run_single(".386\n.model flat\n.code\ndb 1\nend\n").out == b"\1"
print("ready")
