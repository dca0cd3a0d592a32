#!/usr/bin/env python3
"""C11: the segment register a memory operand uses (Assume.tla, Context.tla)."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ctx import *


def gen(rng):
    h = header(rng)
    n = rng.randint(8, 30)
    prog, pre, seg = [], 0, ""
    for _ in range(rng.choice([0, 0, 1, 2])):
        prog.append(gen_assume(h, rng, False))
    pre = len(prog) if rng.random() < .5 else 0
    for _ in range(n):
        r = rng.random()
        if not seg or r < .04:
            if seg:
                prog.append({"op": "ends", "n": seg})
                seg = ""
            if rng.random() < .2:
                prog.append(gen_assume(h, rng, False))
            seg = rng.choice(["CS1", "CS1", "CS2"])
            prog.append({"op": "seg", "n": seg})
        elif r < .3:
            prog.append(gen_assume(h, rng, True))
        elif r < .33:
            prog.append({"op": "push", "ks": ["assumes"]})
        elif r < .36 and sum((S["op"] == "push") - (S["op"] == "pop") for S in prog) > 0:
            prog.append({"op": "pop", "ks": ["assumes"]})
        else:
            prog.append(gen_acc(h, rng))
    prog.append({"op": "ends", "n": seg})
    return {"h": h, "prog": prog, "pre": pre}


def exhaustive(c, rng):
    r = tlc("AssumeModel", "AssumeModel3", workers=8, timeout=1800, heap="6g")
    c.add_tlc(r, "every history of up to 3 ASSUME statements over ds, es, ss, with 12 operands after each")
    pool = [v for _, _, v in r.prints]
    rng.shuffle(pool)
    pool = pool if THOROUGH else pool[:1200]
    cases = []
    for v in pool:
        late = rng.random() < .3
        cases.append({"h": dict(v["h"], late=late), "prog": v["prog"], "pre": 0})
        if late:      # found in the second pass only
            e = set(v["v"]["e1"])
            soon = {k for k in e if (lambda x: x["seg"] in ("", "CS1") or x["ov"] in SREGS)(v["prog"][k - 1]["x"])}
            v["v"]["e1"], v["v"]["e2"] = sorted(soon), sorted(e - soon)
    judge_cases(c, cases, [v["v"] for v in pool], "exhaustive", rng, False)


def main_(c):
    rng = c.rng
    for k in c.known:
        r = run_single(k["input"])
        if r.out is not None and r.out.hex() == k["gives"]:
            c.known_finding(k["what"])
    exhaustive(c, rng)
    growing(c, rng)
    for rnd in range(12 if THOROUGH else 1):
        cases = [gen(rng) for _ in range(4000 if THOROUGH else 1500)]
        rs, tags = tlc_batch("ContextBatch", cases, timeout=900)
        c.add_tlc(rs, "seeded modules")
        texts = judge_cases(c, cases, [tags["V"][j][0] for j in range(len(cases))], "seeded", rng, False)
        if rnd == 0:
            c.sample({"module": texts[0]})


def growing(c, rng):
    """the same access many times: its size becomes known behind it only, so all of them grow in the second pass"""
    cases, reps = [], []
    for n in (20000, 300000) + ((5000, 60000, 500000) if THOROUGH else ()):
        h = header(rng)
        h.update(late=True, grp={m: "" for m in ORDER}, use=rng.choice([16, 32]))
        x = {"ins": "xlat", "use": h["use"], "ov": "", "base": "", "idx": "", "sc": 0, "seg": "D2", "off": 1, "at": 1}
        cases.append({"h": h, "prog": [{"op": "assume", "ps": [["ds", "D1"], [rng.choice(["es", "fs", "ss"]), "D2"]]}, {"op": "seg", "n": "CS1"},
                                       {"op": "acc", "x": x}, {"op": "ends", "n": "CS1"}], "pre": 0})
        reps.append(n)
    rs, tags = tlc_batch("ContextBatch", cases, timeout=300)
    c.add_tlc(rs, "accesses that grow")
    for opts, ext in ((("-bin",), "bin"), (("-coff",), "obj")):
        texts, want = [], []
        for j, (cse, n) in enumerate(zip(cases, reps)):
            L, at = source(cse, rng)
            L = L.split("\n")
            a = at[3] - 1
            L[a:a + 1] = ["m11 macro a", "db 'first body of m11',a", "endm", "rept %d" % n, L[a], "endm", "m11 1", "m11 2",
                          "m11 macro a", "db 'second',a", "endm", "m11 3"]
            texts.append("\n".join(L))
            want.append(bytes(tags["V"][j][0]["code"]["CS1"]) * n + b"first body of m11\1first body of m11\2second\3")

        def wrong(j, r):
            if r.out is None:
                return "rejected: %s" % (r.msgs[:1] or r.rc)
            if want[j] not in r.out:
                return "the %d accesses and what follows them are not in the output" % reps[j]
        judge(c, texts, wrong, "accesses that grow", opts=opts, ext=ext)
        c.traces(len(texts), "accesses that grow")


if __name__ == "__main__":
    main("C11", main_)
