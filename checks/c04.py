#!/usr/bin/env python3
"""C04: random programs (focus equ) whose outcome Preproc.tla computes, and
programs with variables of 64 bits (WVars.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pp import *

HEAD = {32: [".386", ".model flat", ".code"], 64: [".x64", ".model flat, fastcall", ".code"]}


def literal(rng, bits):
    r = rng.random()
    if r < .3:
        v = rng.randrange(0, 20)
    elif r < .5:
        v = rng.getrandbits(rng.randint(1, bits - 1))
    elif r < .75:
        v = (1 << rng.randrange(1, bits)) - rng.choice([0, 1, 1])
    elif r < .85:
        v = rng.choice([0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0xffffffff00000000])
        v &= (1 << bits) - 1
    else:
        v = rng.getrandbits(rng.choice([31, 32, 33, 40, 63])) & ((1 << bits - 1) - 1)
    return rng.choice(["", "", "-"]) + rng.choice(["0%xh" % v, "%d" % v])


def term(rng, bits, names):
    return rng.choice(names) if names and rng.random() < .5 else literal(rng, bits)


def value(rng, bits, names):
    t = term(rng, bits, names)
    while rng.random() < .4:
        t += rng.choice([" + ", " - ", " + ", " and ", " or ", " xor "]) + term(rng, bits, names)
    return t


def wide_program(rng):
    bits = rng.choice([32, 64, 64])
    P, L, names, njump = [], list(HEAD[bits]), [], 0
    case = lambda v: rng.choice([v, v, v.upper()])
    for _ in range(rng.randint(5, 16)):
        r = rng.random()
        if r < .45 or not names:
            v = rng.choice(["wa", "wb", "wc"])
            x = value(rng, bits, names)
            P.append({"k": "set", "v": v, "x": x})
            L.append("%s = %s" % (v, x))
            if v not in names:
                names.append(v)
        elif r < .92:
            u = rng.choice(["dq", "dq", "dd", "if"])
            x = value(rng, bits, names) if u != "if" else "%s %s %s" % (rng.choice(names), rng.choice(["eq", "ne", "lt", "ge"]), term(rng, bits, names))
            P.append({"k": "use", "u": u, "x": x})
            L += ["if " + x, "db 1", "else", "db 0", "endif"] if u == "if" else ["%s %s" % (u, x)]
        elif njump < 3:
            njump += 1
            P.append({"k": "jump"})
            L += ["jz j%d" % njump, "db 130 dup (0)", "j%d:" % njump]
    return {"bits": bits, "prog": P}, "\n".join(L + ["end"]) + "\n"


def wide(c):
    rng = c.rng
    progs = [wide_program(rng) for _ in range(6000 if THOROUGH else 900)]
    rs, tags = tlc_batch("WVarsBatch", [p[0] for p in progs], timeout=900)
    c.add_tlc(rs, "programs with wide variables")
    mods = []
    for (p, t), v in zip(progs, (tags["V"][j][0] for j in range(len(progs)))):
        if v["open"]:
            c.count("wide: not judged (a value that does not fit)")
        else:
            c.count("wide: judged")
            mods.append((t, bytes(v["img"])))

    def wrong(i, r):
        t, img = mods[i]
        if r.out is None or r.errors:
            return "not assembled: %s" % (r.brief()["msgs"][:2],)
        if r.out != img:
            return "image %s instead of %s" % (r.out.hex()[:80], img.hex()[:80])
    judge(c, [m[0] for m in mods], wrong, "wide variables")
    c.traces(len(mods), "programs with wide variables")


def run(c):
    random_part(c, "equ", 15000 if THOROUGH else 2000, shapes=("plain", "jump", "late", "full", "fwd", "fulljump"))
    random_part(c, "mac", 3000 if THOROUGH else 400, size=(3, 6))
    wide(c)


main("C04", run)
