#!/usr/bin/env python3
"""C01: conditional assembly. (a) CondAsm.tla: every sequence of directives up to
a length, the stack machine against the declarative meaning; every sequence up
to a length is also assembled. (b) random programs against Preproc.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pp import *

TRUE = ["if 1", "if -1", "if 2 gt 1", "if 3 and 2", "ife 0", "ife 2 eq 3", "ifdef va", "ifdef ma", "ifndef nodef",
        "ifb <>", "ifb <  >", "ifnb <x>", "ifidn <a>,<a>", "ifidn ta,<abc>", "ifidni <aB>,<Ab>", "ifdif <a>,<A>",
        "ifdifi <a>,<b>", "ifdif <a>,<a >", "if va", "if tn", "ifdef ta"]
FALSE = ["if 0", "if 1 gt 2", "if 4 and 2", "ife 1", "ife -1", "ifdef nodef", "ifndef va", "ifnb <>", "ifnb <  >",
         "ifb <x>", "ifidn <a>,<A>", "ifidn ta,<abd>", "ifidni <ab>,<ac>", "ifdif <a>,<a>", "ifdifi <aB>,<Ab>",
         "if vz", "ife tn", "ifndef ma"]
PRE = ["va = 5", "vz = 0", "ta textequ <abc>", "tn textequ <3>", "ma macro", "endm"]
HEAD = [".386", ".model flat", ".code"] + PRE


def text(seq, rng, wrap):
    body = []
    for k, d in enumerate(seq):
        if d == "b":
            l = "db %d" % (k + 1)
        elif d == "end":
            l = "endif"
        elif d == "els":
            l = "else"
        else:
            l = rng.choice(TRUE if d[2] == "1" else FALSE)
            if d[:2] == "el":
                l = "else" + l
        if rng.random() < .1:
            l = l.upper() if not any(x in l for x in "<") else l
        if rng.random() < .2:
            l = rng.choice([" ", "\t"]) + l
        if rng.random() < .1:
            l += " ; if else"
        body.append(l)
    if wrap == "macro":
        body = ["mx macro"] + body + ["endm", "mx"]
    elif wrap == "loop":
        body = ["repeat 1"] + body + ["endm"]
    return "\n".join(HEAD + body) + "\nend\n"


def exhaustive(c):
    r = tlc("CondAsm", "CondAsmDeep" if THOROUGH else None, workers=NPROC, heap="6g")
    c.add_tlc(r, "CondAsm exhaustive")
    cases = sorted((v for _, _, v in r.prints), key=lambda v: (len(v["s"]), v["s"]))
    short = [v for v in cases if len(v["s"]) <= (5 if THOROUGH else 4)]
    rest = [v for v in cases if len(v["s"]) > (5 if THOROUGH else 4)]
    c.rng.shuffle(rest)
    use = short + rest[:30000 if THOROUGH else 2500]
    texts, wraps = [], []
    for v in use:
        good = v["o"] == 0 and not v["b"]
        w = c.rng.choice(["", "macro", "loop"]) if good and c.rng.random() < .5 else ""
        wraps.append(w)
        texts.append(text(v["s"], c.rng, w))
    rs = run_many(texts, per=150)
    for v, t, r in zip(use, texts, rs):
        def ok(r):
            errs = [k + len(HEAD) for k in v["b"]]
            want = None if errs or v["o"] else bytes(v["e"])
            if r.out != want:
                return False
            got = [(m[1], m[3]) for m in r.errors]
            # the first error always; how the rest is taken after an unmatched
            # directive is recovery, but nothing correct may be reported
            if errs:
                if not got or got[0] != (errs[0], faulty(v["s"], errs[0] - len(HEAD))):
                    return False
                if any(faulty(v["s"], b) == 2080 and v["s"][b - 1][:2] == "el" for b in v["b"]):
                    return True
            elif v["o"]:
                return len(got) == 1 and got[0][1] == 2080
            for l, n in got:
                if l in errs:
                    if n != faulty(v["s"], l - len(HEAD)):
                        return False
                elif not (n == 2080 and (l == 0 or l > len(HEAD) + len(v["s"]))):
                    return False
            return bool(errs) == bool(got)
        if not ok(r):
            r = run_single(t)
        if not ok(r):
            c.violation("%s: bytes %s expected, errors at %s, open %s; got %s" % (
                v["s"], v["e"], v["b"], v["o"], r.brief()), files={"m.asm": t})
    c.traces(len(use), "CondAsm sequences")
    c.sample(use[len(use) // 2])
    # depth: up to the limit every nest works
    for d in range(1, 21):
        for inner in ("if 1", "if 0"):
            body = ["if 1"] * (d - 1) + [inner, "db 1", "else", "db 2", "endif"] + ["else", "db 3", "endif"] * (d - 1)
            t = "\n".join(HEAD + body) + "\nend\n"
            r = run_single(t)
            c.count("depth")
            if r.out != bytes([1 if inner == "if 1" else 2]):
                c.violation("nest of depth %d: %s" % (d, r.brief()), files={"m.asm": t})


def faulty(seq, k):
    """2080 for an unmatched directive, 2276 for one behind ELSE (position from 1)"""
    lvl = 0
    for d in seq[:k - 1]:
        if d in ("if1", "if0"):
            lvl += 1
        elif d == "end" and lvl:
            lvl -= 1
    return 2276 if lvl else 2080


def run(c):
    exhaustive(c)
    random_part(c, "cond", 12000 if THOROUGH else 1500, shapes=("plain", "jump", "late", "full"))


main("C01", run)
