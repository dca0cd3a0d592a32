#!/usr/bin/env python3
"""C16: object files, symbols (Objects.tla, Linker.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import objcheck

main("C16", objcheck.main_for("s", True))
