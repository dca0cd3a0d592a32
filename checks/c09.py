#!/usr/bin/env python3
"""C09: values of constant expressions and their uses (Wide.tla, WExpr.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

BIN = ["+", "-", "*", "/", "mod", "shl", "shr", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "xor"]
PRE = ["-", "+", "not", "low", "high", "lowword", "highword", "low32", "high32"]
HEAD = {16: [".386", "_T segment use16 'CODE'"], 32: [".386", ".model flat", ".code"], 64: [".x64", ".model flat, fastcall", ".code"]}
TAIL = {16: ["_T ends"], 32: [], 64: []}
USES = ["dq"] * 5 + ["dd", "dw", "db", "df", "imm", "imm", "eq", "eqx", "equ", "if", "elseif", "ife", "while", "dup", "rept", "mac", "mac", "txt", "erre", "errnz"]
SYMS = {"sy0": 0, "sy1": 1, "syn": -1, "syw": 65535, "syd": 0x80000000, "syz": 12345, "syneg": -300}


def bytes_of(v, n=16):
    return list((v & (256 ** n - 1)).to_bytes(n, "little"))


def case(rng, s):
    return "".join(c.upper() if rng.random() < .5 else c for c in s) if rng.random() < .3 else s


def digits(v, b):
    s = ""
    while True:
        s = "0123456789abcdef"[v % b] + s
        v //= b
        if not v:
            return s


def number(rng, rx, wide):
    r = rng.random()
    if r < .45:
        v = rng.randrange(0, 20)
    elif r < .7:
        v = rng.choice([1, 2]) ** 1 * (1 << rng.randrange(1, 65)) + rng.choice([-1, 0, 1, -2])
    elif r < .85:
        v = rng.getrandbits(rng.randrange(1, 65))
    else:
        v = rng.randrange(20, 70000)
    v = min(max(v, 0), 2 ** 64 - 1)
    if wide:
        v = rng.getrandbits(rng.choice([65, 66, 80, 100, 127, 128, 130])) | 1
    f = rng.choice(["h", "h", "h", "", "", "t", "y", "o", "q", "b", "d", "x"])
    if f == "":
        s = digits(v, rx)
        if rx > 10 and s[-1] in "bd":
            pass
    elif f == "x":
        return "0x" + case(rng, digits(v, 16))
    else:
        if f == "b" and rx > 11 or f == "d" and rx > 13:
            f = "h"
        s = digits(v, {"h": 16, "t": 10, "y": 2, "o": 8, "q": 8, "b": 2, "d": 10}[f]) + f
    if s[0].isalpha():
        s = "0" + s
    return case(rng, s)


def expr(rng, rx, size, depth=0):
    out = []
    n = 1 if rng.random() < .15 else rng.randint(1, size)
    for k in range(n):
        if k:
            out.append(case(rng, rng.choice(BIN)))
        while rng.random() < .25:
            out.append(case(rng, rng.choice(PRE)))
        r = rng.random()
        if r < .2 and depth < 4:
            out += ["("] + expr(rng, rx, max(1, size - 2), depth + 1) + [")"]
        elif r < .28:
            out.append(case(rng, rng.choice(list(SYMS))))
        elif r < .33 and (n > 1 or depth):
            q = rng.choice("'\"")
            out.append(q + "".join(rng.choice("abcxyzABC019") for _ in range(rng.choice([1, 1, 1, 2, 2, 4, 8]))) + q)
        else:
            out.append(number(rng, rx, rng.random() < .006))
    return out


def text(rng, toks):
    s = ""
    for t in toks:
        a = s[-1:]
        b = t[0]
        glue = rng.random() < .5 and not (a.isalnum() and b.isalnum()) and a not in "'\"" and b not in "'\"" or not s
        s += ("" if glue else " ") + t
    return s


def lines_of(use, x, n, rng):
    """source lines of an item; index of the line that an error belongs to"""
    nm = "v%d" % n
    if use in ("dq", "dd", "dw", "db", "df"):
        return ["%s %s" % (use, x)], 0
    return {
        "imm": (["mov eax, " + x], 0),
        "eq": (["%s = %s" % (nm, x), "dq " + nm], 0),
        "eqx": (["%s = 1" % nm, "%s = %s" % (nm, x), "dq " + nm, "%s = 0" % nm], 1),
        "equ": (["%s equ %s" % (nm, x), "dq " + nm], 1),
        "if": (["if " + x, "db 1", "else", "db 0", "endif"], 0),
        "elseif": (["if 0", "db 11b", "elseif " + x, "db 1", "else", "db 0", "endif"], 2),
        "ife": (["ife " + x, "db 1", "else", "db 0", "endif"], 0),
        "while": (["while " + x, "db 1", "exitm", "endm"], 0),
        "dup": (["db %s dup (5ah)" % x], 0),
        "rept": (["repeat " + x, "db 5ah", "endm"], 0),
        "mac": (["mm %" + ("(%s)" % x if rng.random() < .6 else " " + x)], 0),
        "txt": (["%s textequ %%(%s)" % (nm, x), "dq " + nm], 0),
        "erre": ([".erre " + x], 0),
        "errnz": ([".errnz " + x], 0),
    }[use]


def module(bits, rx, items, rng):
    """items: (use, text, expected, index) -> source, bytes, {line: item}"""
    L = list(HEAD[bits]) + ["mm macro x", "dq x", "endm"]
    for k, v in SYMS.items():
        L.append("%s = %s0%xh" % (k, "-" if v < 0 else "", abs(v)))
    if rx != 10:
        L.append(".radix " + str(rx))
    img = b""
    errs = {}
    for k, (use, x, e, idx) in enumerate(items):
        ls, off = lines_of(use, x, k, rng)
        if e["ok"]:
            img += bytes(e["b"])
        else:
            errs[len(L) + 1 + off] = (use, x)
        L += ls
    if rx != 10:
        L.append(".radix 10t")
    return "\n".join(L + TAIL[bits] + ["end"]) + "\n", img, errs


def compose(c, rng, cases, vals):
    """groups the uses of the evaluated expressions into modules"""
    mods = []
    pools = {}
    for j, (cs, v) in enumerate(zip(cases, vals)):
        for u, e in zip(cs["use"], v["use"]):
            if e["ok"] and e["b"] == [-1]:
                continue
            if not v["ok"] and (u == "equ" or v["why"] == "wide" and u in ("mac", "txt")):
                continue
            if v["why"] == "count" and u in ("dup", "rept"):
                continue    # reported, but evaluated on: may repeat a huge number of times
            kind = "ok" if e["ok"] else "err2" if u in ("erre", "errnz") and v["ok"] else "err"
            pools.setdefault((cs["bits"], cs["rx"], kind), []).append((u, cs["x"], e, j))
            c.count("use " + u + ("" if e["ok"] else " (error)"))
    for (bits, rx, kind), pool in sorted(pools.items()):
        for k in range(0, len(pool), 14):
            mods.append(module(bits, rx, pool[k:k + 14], rng))
    return mods


def wrong_for(mods):
    def wrong(i, r):
        text_, img, errs = mods[i]
        got = {m[1] for m in r.errors}
        if errs:
            if r.out is not None:
                return "no error, but %s" % list(errs.values())[0][1][:100]
            if got != set(errs):
                miss = [errs[l] for l in sorted(set(errs) - got)]
                return "errors at lines %s, expected at %s %s" % (sorted(got), sorted(errs), miss[:2])
            return None
        if r.out is None or r.errors:
            return "not assembled: %s" % (r.brief()["msgs"][:2],)
        if r.out != img:
            k = next((k for k in range(min(len(img), len(r.out))) if img[k] != r.out[k]), min(len(img), len(r.out)))
            return "emitted bytes differ from the specified ones at %d (%d bytes, expected %d): %s, expected %s" % (
                k, len(r.out), len(img), r.out[k:k + 8].hex(), img[k:k + 8].hex())
    return wrong


def exhaustive(c, rng):
    pool = []
    with ThreadPoolExecutor(5) as ex:
        rs = list(ex.map(lambda k: tlc("WExprModel", "WExprModel%d" % k, workers=2, timeout=1200), (1, 2, 3, 4, 5)))
    for k, r in zip((1, 2, 3, 4, 5), rs):
        c.add_tlc(r, "every expression of shape %d" % k)
        for t, _, v in r.prints:
            pool.append(("dq", v["x"], {"ok": v["ok"], "b": v["v"] if v["ok"] else []}, 0))
    ok = [p for p in pool if p[2]["ok"]]
    bad = [p for p in pool if not p[2]["ok"]]
    mods = [module(32, 10, ok[k:k + 60], rng) for k in range(0, len(ok), 60)]
    mods += [module(32, 10, bad[k:k + 40], rng) for k in range(0, len(bad), 40)]
    judge(c, [m[0] for m in mods], wrong_for(mods), "exhaustive")
    c.traces(len(pool), "every expression of the small shapes")


def main_(c):
    rng = c.rng
    exhaustive(c, rng)
    n = 6000 if THOROUGH else 700
    for rnd in range(12 if THOROUGH else 1):
        cases = []
        for _ in range(n):
            bits = rng.choice([16, 32, 32, 64])
            rx = rng.choice([10, 10, 10, 10, 16, 8, 2, 12, 14])
            toks = expr(rng, rx, rng.choice([2, 3, 4, 6, 9]))
            uses = sorted(set(rng.choice(USES) for _ in range(rng.randint(2, 6))))
            if rx > 10:
                uses = [u for u in uses if u not in ("mac", "txt")]
            small = [u for u in uses if u in ("dup", "rept")]
            if small and rng.random() < .8:
                uses = small
                toks = ["("] + toks + [")", "and", rng.choice(["1fh", "0fh", "3fh"])]
            if all(t[0] in "'\"()" for t in toks):
                continue
            cases.append({"x": text(rng, toks), "rx": rx, "bits": bits, "use": uses,
                          "sym": {k: bytes_of(v) for k, v in SYMS.items()}})
        rs, tags = tlc_batch("WExprBatch", cases, timeout=900)
        c.add_tlc(rs, "seeded expressions")
        vals = [tags["V"][j][0] for j in range(len(cases))]
        syn = [cases[j]["x"] for j in range(len(cases)) if vals[j]["why"] == "syntax"]
        if syn:
            raise CheckError("generator: " + syn[0])
        mods = compose(c, rng, cases, vals)
        judge(c, [m[0] for m in mods], wrong_for(mods), "seeded")
        c.traces(len(cases), "seeded expressions")
        if rnd == 0:
            c.sample({"expression": cases[0]["x"], "value": vals[0]})
            c.sample({"module": mods[0][0]})
    c.assumptions += ["MOD is unsigned; TEXTEQU %(x) gives the 32-bit unsigned text of -2^32 <= x < 0; -1 SHR n is a 32-bit shift in 32-bit code (as implemented and commented in the source)",
                      "operators on numbers of more than 64 bits are errors"]


if __name__ == "__main__":
    main("C09", main_)
