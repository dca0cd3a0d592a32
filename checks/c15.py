#!/usr/bin/env python3
"""C15: object files, relocations (Objects.tla, Linker.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import objcheck

main("C15", objcheck.main_for("o", False))
