#!/usr/bin/env python3
"""C07: data definitions (Data.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from c09 import HEAD, TAIL, expr, text, digits, case, number

INTS = [("db", 1), ("byte", 1), ("sbyte", 1), ("dw", 2), ("word", 2), ("sword", 2), ("dd", 4), ("dword", 4), ("sdword", 4),
        ("df", 6), ("fword", 6), ("dq", 8), ("qword", 8), ("sqword", 8), ("mmword", 8), ("dt", 10), ("tbyte", 10),
        ("oword", 16), ("xmmword", 16), ("ymmword", 32), ("zmmword", 64)]
REALS = [("real4", 4), ("real8", 8), ("real10", 10)]
DEFS = [("sy0", 0), ("sy1", 1), ("syn", -1), ("syw", 65535), ("syd", 0x80000000), ("syz", 12345), ("syneg", -300)]
MAXS = 14


def lit(rng, n):
    """a number around the limits of n bytes"""
    m = min(n, 16)
    r = rng.random()
    if r < .5:
        v = rng.randrange(0, 40)
    elif r < .75:
        v = rng.getrandbits(rng.randrange(1, 8 * m + 1))
    else:
        v = (1 << (8 * m - rng.choice([0, 1]))) + rng.choice([-2, -1, -1, 0 if rng.random() < .3 else -3])
    s = rng.choice(["", "", "-"])
    if n > 8 and s and 2 ** 63 < v < 2 ** 64:
        s = ""
    if n == 10 and s and v >= 2 ** 79:
        s = ""
    h = digits(v, 16) + "h"
    return [s] * (s != "") + [case(rng, h if h[0].isdigit() else "0" + h)] if rng.random() < .6 else [s] * (s != "") + [str(v)]


def string(rng, n):
    k = rng.choice([1, 1, 2, 3, 4, n, n]) if n > 1 else rng.randint(1, 6)
    if n > 1:
        k = min(k, n) if rng.random() < .96 else n + 1
    q = rng.choice("'\"")
    s = "".join(rng.choice("abcxyzABC019 ,();?" + q) for _ in range(k)) if rng.random() < .98 else ""
    return [q + s.replace(q, q + q) + q]


def item(rng, n, kind, names, depth):
    r = rng.random()
    if r < .25 and depth < 3:
        c = rng.random()
        if c < .75:
            cnt = [str(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 7]))]
        elif c < .9 and names:
            cnt = [rng.choice(names)] + ([rng.choice(["and"]), "7"] if rng.random() < .9 else [])
        elif c < .97:
            cnt = ["("] + expr(rng, 10, 3) + [")", "and", "3"]
        else:
            cnt = ["-", "1"]
        return cnt + [case(rng, "dup"), "("] + ilist(rng, n, kind, names, depth + 1) + [")"]
    if r < .35:
        return ["?"]
    if kind == "real":
        if rng.random() < .7:
            f = rng.choice(["0", "5", "25", "75", "125", "375", "0625"])
            ip = rng.choice([0, 1, 2, 3, 7, 10, 100, 255, rng.randrange(100000)])
            return (["-"] if rng.random() < .4 and (ip or f != "0") else []) + ["%d.%s" % (ip, f)]
        return (["-"] if rng.random() < .4 else []) + [str(rng.getrandbits(rng.randrange(1, 54 if n < 10 else 63)))]
    if r < .5:
        return string(rng, n)
    if r < .55 and names:
        return [rng.choice(names)]
    if r < .7:
        e = expr(rng, 10, 3)
        if n < 8:
            e = ["("] + e + [")", "and", {1: "127", 2: "7fffh", 4: "7fffffffh", 6: "7fffffffffffh"}[n]]
        if all(t[0] in "'\"()" for t in e):
            return lit(rng, n)
        return e
    if r < .73 and n in (4, 8, 10):
        return ["%d.%s" % (rng.choice([0, 1, 3, 640]), rng.choice(["5", "25", "0"]))]
    return lit(rng, n)


def ilist(rng, n, kind, names, depth=0):
    k = rng.choice([1, 1, 2, 3, 4] if depth else [1, 1, 1, 2, 3, 5])
    out = []
    for j in range(k):
        if j:
            out.append(",")
        out += item(rng, n, kind, names, depth)
    return out


def program(rng, bits):
    """-> (case for the model, source lines, line number of each statement)"""
    src = list(HEAD[bits])
    if bits != 16 and rng.random() < .4:
        src[-1] = rng.choice([".data", ".const", ".code"])
    types = INTS + REALS
    alias = {}
    for k in range(rng.randint(0, 3)):
        d, n = rng.choice([t for t in INTS if t[0] not in ("db", "dw", "dd", "df", "dq", "dt")])
        alias["ty%d" % k] = n
        src.append("ty%d typedef %s" % (k, rng.choice([a for a, b in alias.items() if b == n and a != "ty%d" % k] or [d])))
    stmts, lines = [], []
    names = [a for a, _ in DEFS]
    for a, v in DEFS:
        src.append("%s = %s%d" % (a, "-" if v < 0 else "", abs(v)))
    labels = []
    direct = {}

    def out(st, ls):
        stmts.append(st)
        src.extend(ls)
        lines.append(len(src))

    consts = []
    for k in range(rng.randint(3, MAXS)):
        r = rng.random()
        if r < .25 and labels:
            l = rng.choice(labels)
            nm = "q%d" % k
            if rng.random() < .25:
                out({"op": "dist", "name": nm, "label": l}, ["%s = $ - %s" % (nm, l)])
            else:
                w = rng.choice(["type", "lengthof", "sizeof", "length", "size"])
                if rng.random() < .5:
                    out({"op": "attr", "name": nm, "label": l, "what": w}, ["%s = %s %s" % (nm, case(rng, w), l)])
                else:
                    out({"op": "attr", "name": nm, "label": l, "what": w}, [])
                    direct[nm] = "%s %s" % (case(rng, w), l)
            consts.append(nm)
            # it is looked at
            out({"op": "def", "label": "", "n": 4, "kind": "int", "text": nm}, ["dd " + direct.get(nm, nm)])
            continue
        kind, n, d = "int", 0, ""
        if rng.random() < .15:
            (d, n), kind = rng.choice(REALS), "real"
        elif alias and rng.random() < .2:
            d, n = rng.choice(list(alias.items()))
        else:
            d, n = rng.choice(INTS if rng.random() < .4 else INTS[:16])
        toks = ilist(rng, n, kind, names + consts + consts)
        for t in toks:                  # attribute expressions in place
            pass
        x = text(rng, toks)
        shown = [direct.get(t, t) for t in toks]
        y = text(rng, shown) if shown != toks else x
        ls = [y]
        if rng.random() < .2:           # split behind a comma
            c = rng.choice([q for q, t in enumerate(toks) if t == ","] or [0])
            if c:
                ls = [text(rng, shown[:c + 1]), text(rng, shown[c + 1:])]
        lab = "lb%d" % k if rng.random() < .6 else ""
        ls[0] = (lab + " " if lab else "") + case(rng, d) + " " + ls[0]
        if rng.random() < .1:
            ls[-1] += " ; a comment"
        out({"op": "def", "label": lab, "n": n, "kind": kind, "text": x}, ls)
        if lab:
            labels.append(lab)
    out({"op": "def", "label": "", "n": 1, "kind": "int", "text": "238"}, ["db 238"])
    return {"bits": bits, "stmts": stmts}, src + TAIL[bits] + ["end"], lines


def pre(cs):
    """the constants every program defines"""
    return cs


def wrong_for(mods):
    def wrong(i, r):
        img, errs, _ = mods[i]
        if errs:
            got = {m[1] for m in r.errors}
            if r.out is not None:
                return "no error, expected at lines %s" % sorted(errs)
            if got != errs:
                return "errors at lines %s, expected at %s" % (sorted(got), sorted(errs))
            return None
        if r.out is None or r.errors:
            return "not assembled: %s" % (r.brief()["msgs"][:2],)
        if r.out != img:
            k = next((k for k in range(min(len(img), len(r.out))) if img[k] != r.out[k]), min(len(img), len(r.out)))
            return "emitted bytes differ from the specified ones at %d (%d bytes, expected %d): %s, expected %s" % (
                k, len(r.out), len(img), r.out[k:k + 8].hex(), img[k:k + 8].hex())
    return wrong


DIRS = {1: ["db", "byte"], 2: ["dw", "word"], 4: ["dd", "dword"]}


def exhaustive(c, rng):
    k = 5 if THOROUGH else 4
    r = tlc("DataModel", "DataModel%d" % k, workers=8 if THOROUGH else 3, timeout=1200)
    c.add_tlc(r, "every list of up to %d constructions" % k)
    mods, texts = [], []
    pool = [v for _, _, v in r.prints]
    rng.shuffle(pool)
    for j in range(0, len(pool), 60):
        L, img = list(HEAD[32]), b""
        for q, v in enumerate(pool[j:j + 60]):
            d = rng.choice(DIRS[v["n"]])
            L.append("v%d %s %s" % (q, d, v["x"]))
            L.append("dw lengthof v%d, sizeof v%d, length v%d, size v%d" % (q, q, q, q))
            img += bytes(v["b"])
            for w in (v["len"], v["len"] * v["n"], v["first"], v["first"] * v["n"]):
                img += w.to_bytes(2, "little")
        texts.append("\n".join(L + ["end"]) + "\n")
        mods.append((img, set(), None))
    judge(c, texts, wrong_for(mods), "exhaustive")
    c.traces(len(pool), "every small list, with its attributes")


def known(c):
    for k in c.known:
        r = run_single(k["input"])
        if r.out is not None and r.out.hex() == k["gives"]:
            c.known_finding(k["what"])


def main_(c):
    rng = c.rng
    known(c)
    exhaustive(c, rng)
    for rnd in range(10 if THOROUGH else 1):
        progs = [program(rng, rng.choice([16, 32, 32, 64])) for _ in range(3000 if THOROUGH else 420)]
        base = [{"op": "def", "label": "", "n": 1, "kind": "int", "text": "1"}]
        cases = []
        for cs, _, _ in progs:
            cases.append(dict(cs, init={a: list((v & (256 ** 16 - 1)).to_bytes(16, "little")) for a, v in DEFS}))
        rs, tags = tlc_batch("DataBatch", cases, timeout=900)
        c.add_tlc(rs, "seeded programs")
        mods, texts = [], []
        for j, (cs, src, lines) in enumerate(progs):
            v = tags["V"][j][0]
            if v["open"]:
                c.count("dropped: unspecified")
                continue
            errs = {lines[p - 1] for p in v["errs"]}
            c.count("programs with errors" if errs else "programs without errors")
            mods.append((bytes(v["img"]), errs, None))
            texts.append("\n".join(src) + "\n")
        judge(c, texts, wrong_for(mods), "seeded")
        c.traces(len(texts), "seeded programs")
        if rnd == 0:
            c.sample({"module": texts[0], "bytes": mods[0][0].hex()[:200]})
    c.assumptions += ["a number in an item of n <= 8 bytes must satisfy -2^8n < v < 2^8n, 64-bit arithmetic",
                      "items above 8 bytes: a negative result of operators and -(2^64-1)..-(2^63+1) are left open (see known_findings.json)",
                      "floats with exactly representable fractions; integers in REAL items rounded to nearest-even"]


if __name__ == "__main__":
    main("C07", main_)
