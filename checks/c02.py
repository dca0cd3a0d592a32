#!/usr/bin/env python3
"""C02: random programs (focus mac) whose outcome Preproc.tla computes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pp import *


def many(c):
    """LOCAL names stay apart however many expansions there are (the rule of
    Preproc.tla: the number of the expansion is part of the name)"""
    texts, want = [], []
    for n, loc, shape in ((300, 1, 0), (700, 3, 0), (5000, 1, 1), (5000, 13, 0), (40000, 2, 0)):
        names = ["la%d" % i for i in range(loc)]
        body = ["m macro", "local " + ", ".join(names)] + ["%s equ cnt + %d" % (x, i) for i, x in enumerate(names)] + [
            "db (%s) and 255" % x for x in names] + ["endm"]
        if shape:      # every other expansion is a loop's
            body += ["cnt = 0", "repeat %d" % n, "local lb", "lb equ cnt + 100", "m", "db lb and 255", "cnt = cnt + 1", "endm"]
            w = b"".join(bytes((k + i) & 255 for i in range(loc)) + bytes([(k + 100) & 255]) for k in range(n))
        else:
            body += ["cnt = 0", "repeat %d" % n, "m", "cnt = cnt + 1", "endm"]
            w = b"".join(bytes((k + i) & 255 for i in range(loc)) for k in range(n))
        texts.append("\n".join(BASE + body) + "\nend\n")
        want.append(w)
    judge(c, texts, lambda i, r: None if r.out == want[i] else "LOCAL names of %d bytes of expansions: %s" % (
        len(want[i]), [m[3] for m in r.errors[:3]] or "other bytes"), per=1)
    c.traces(len(texts), "many expansions")


def run(c):
    many(c)
    random_part(c, "mac", 15000 if THOROUGH else 2000, shapes=("plain", "jump", "late", "full", "fwd", "fulljump"))
    random_part(c, "loop", 3000 if THOROUGH else 400, size=(3, 6))


main("C02", run)
