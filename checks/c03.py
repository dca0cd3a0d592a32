#!/usr/bin/env python3
"""C03: random programs (focus loop) whose outcome Preproc.tla computes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pp import *


def run(c):
    random_part(c, "loop", 15000 if THOROUGH else 2000, shapes=("plain", "jump", "late", "full", "fwd", "fulljump"))
    random_part(c, "mac", 3000 if THOROUGH else 400, size=(3, 6))


main("C03", run)
