#!/usr/bin/env python3
"""C12: the code of high-level control blocks does what the structured program means (Hll.tla, Machine.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import hll


class Item:
    """a program with what its user statements do"""
    def __init__(self, g, prog, env, start, rng):
        self.g, self.prog, self.env, self.start = g, prog, env, start
        self.text = hll.source(g, prog, rng)


def spelled(x):
    """a program printed by TLC, with the numbers its spelling needs"""
    if isinstance(x, dict):
        d = {k: spelled(v) for k, v in x.items()}
        if d.get("k") == "i":
            d["x"] = int.from_bytes(bytes(d["v"]), "little", signed=True)
        if "cases" in d:
            for q in d["cases"]:
                q["xs"] = [int.from_bytes(bytes(v), "little", signed=True) for v in q["vs"]]
        return d
    return [spelled(y) for y in x] if isinstance(x, list) else x


def style(x):
    if isinstance(x, dict):
        return x.get("style") or "".join(style(v) for v in x.values())[:1]
    return "".join(style(v) for v in x)[:1] if isinstance(x, list) else ""


def enumerated(rng, r, n):
    """behaviours of HllModel as programs and actions"""
    out = []
    for p in rng.sample(r.prints, min(n, len(r.prints))):
        b = p[2]
        prog = spelled(b["p"])
        mode = rng.choice([32, 64])
        st = style(prog)
        g = hll.Gen(rng, mode, ["switch"] + (["c"] if st == "c" else []))
        w = 4 if mode == 32 else 8
        bx = "ebx" if mode == 32 else "rbx"
        ax = "eax" if mode == 32 else "rax"
        act = lambda v: {"r": [[ax, list(rng.randrange(1 << 8 * w).to_bytes(w, "little"))],
                               [bx, list((v | (rng.randrange(1 << 32) << 32 if w == 8 else 0)).to_bytes(w, "little"))]],
                         "w": [], "f": [rng.randint(0, 1) for _ in range(5)]}
        start = g.action(True)
        start["r"] += act(b["vs"][0])["r"]
        out.append(Item(g, prog, [act(v) for v in b["vs"][1:]], start, rng))
    return out


def seeded(rng, n, opts, modes, steps):
    out = []
    for _ in range(n):
        g = hll.Gen(rng, rng.choice(modes), opts)
        prog = g.program()
        start = g.action(True)
        out.append(Item(g, prog, [g.action() for _ in range(steps)], start, rng))
    return out


def far(r):
    """LOOP out of reach: the only reason a program may be rejected for"""
    return r.out is None and r.errors and all(m[2] in (2053, "2053", "A2053") or "2053" in str(m[2:4]) for m in r.errors)


def run(c, items, label):
    rs = run_many([p.text for p in items], per=20, timeout=40)
    cases, idx = [], []
    for k, (p, r) in enumerate(zip(items, rs)):
        if not r.out or len(r.out) < 10:
            if far(r):
                c.count("loop out of reach")
                continue
            again = run_single(p.text)
            if again.out and len(again.out) >= 10:
                rs[k] = again
            elif far(again):
                c.count("loop out of reach")
                continue
            else:
                c.violation("%s: a program of control blocks is rejected: %s" % (label, again.brief()), source=p.text)
                continue
        cases.append(hll.case(p.g, p.prog, p.env, p.start, rs[k].out))
        idx.append(k)
    res, tags = tlc_batch("HllBatch", cases, timeout=800)
    c.add_tlc(res, label)
    wrong = []
    for j, k in enumerate(idx):
        v = tags["V"][j][0]
        c.count("user statements reached", v["n"])
        c.count("programs: " + (v["o"] if v["o"][0] != "!" else "different"))
        if v["o"][0] == "!":
            wrong.append((k, v))
    if wrong:
        # once more, each by itself
        one = [run_single(items[k].text) for k, _ in wrong]
        c2 = [hll.case(items[k].g, items[k].prog, items[k].env, items[k].start, r.out) for (k, _), r in zip(wrong, one) if r.out]
        ks = [k for (k, _), r in zip(wrong, one) if r.out]
        res, tags = tlc_batch("HllBatch", c2, timeout=400)
        for j, k in enumerate(ks):
            v = tags["V"][j][0]
            if v["o"][0] == "!":
                c.violation("%s: after %d user statements: %s" % (label, v["n"] - 1, v["o"][1:]), source=items[k].text,
                            start=items[k].start, actions=items[k].env[:v["n"]])
    c.traces(len(cases), label)


def main_(c):
    rng = c.rng
    r = tlc("HllModel", "HllModel6" if THOROUGH else "HllModel4", workers=8, timeout=3000)
    c.add_tlc(r, "every behaviour of the small programs")
    c.sample({"behaviours": len(r.prints)})
    run(c, enumerated(rng, r, 12000 if THOROUGH else 450), "behaviours enumerated by TLC")
    for rnd in range(12 if THOROUGH else 1):
        its = []
        q = 150 if THOROUGH else 32
        its += seeded(rng, 2 * q, [], [16, 32, 64], 40 if THOROUGH else 18)
        its += seeded(rng, 2 * q, ["switch", "multi"], [32, 64], 40 if THOROUGH else 18)
        its += seeded(rng, q, ["switch", "multi", "c"], [32, 64], 40 if THOROUGH else 18)
        if rnd == 0:
            c.sample(its[0].text[:1500])
        run(c, its, "seeded programs")


if __name__ == "__main__":
    main("C12", main_)
