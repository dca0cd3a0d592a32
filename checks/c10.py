#!/usr/bin/env python3
"""C10: PUSHCONTEXT and POPCONTEXT (Context.tla)."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ctx import *
import ctx

KINDS = ["assumes", "radix", "listing", "cpu", "alignment"]
MARKS = itertools.count(10001, 2)


def safe_acc(rng, h):
    """an operand that 8086 code can have"""
    while True:
        S = gen_acc(h, rng)
        x = S["x"]
        if x["ov"] not in ("fs", "gs") and (x["seg"] or x["base"]):
            return S


def show(k, h, rng, quiet=False):
    if k == "assumes":
        return safe_acc(rng, h) if rng.random() < .7 else {"op": "incbx"}
    if k == "cpu" and quiet:
        return {"op": "atcpu"}
    return gen_show(k, h, rng, MARKS)


def setting(k, h, rng, outside):
    while True:
        S = gen_set(k, h, rng, not outside)
        if S["op"] == "assume" and any(r in ("fs", "gs") for p in S["ps"] for r in p):
            continue
        if S["op"] == "std" and S["v"] == "dword":
            continue
        if S["op"] == "cpu" and outside and S["d"]["k"] == "cpu" and S["d"]["lvl"] < 3:
            continue
        return S


def kinds(rng):
    r = rng.random()
    if r < .3:
        return ["all"]
    if r < .75:
        return [rng.choice(KINDS)]
    return rng.sample(KINDS, rng.randint(2, 4)) if r < .93 else rng.sample(["all", "alignment"], 2)


def gen(rng):
    h = dict(header(rng), use=16)
    prog, depth = [], dict.fromkeys(KINDS, 0)
    errs = rng.random() < .12

    def act(pre):
        r = rng.random()
        if r < .22:
            ks = kinds(rng)
            for k in ks:
                for j in (KINDS[:4] if k == "all" else [k]):
                    depth[j] += 1
            return {"op": "push", "ks": ks}
        if r < .42:
            for _ in range(6):
                ks = kinds(rng)
                need = {}
                for k in ks:
                    for j in (KINDS[:4] if k == "all" else [k]):
                        need[j] = need.get(j, 0) + 1
                if errs and rng.random() < .2 or all(depth[j] >= n for j, n in need.items()):
                    for j, n in need.items():
                        depth[j] = max(0, depth[j] - n)
                    return {"op": "pop", "ks": ks}
        return setting(rng.choice(KINDS), h, rng, not seg)
    seg = ""
    for _ in range(rng.choice([0, 0, 3, 6])):
        prog.append(act(True))
    pre = len(prog) if rng.random() < .7 else 0
    if not pre:
        prog = []
        depth = dict.fromkeys(KINDS, 0)
    quiet = rng.random() < .6
    for _ in range(rng.randint(8, 30)):
        r = rng.random()
        if not seg or r < .04:
            if seg:
                prog.append({"op": "ends", "n": seg})
                seg = ""
                if rng.random() < .5:
                    prog.append(act(False))
            seg = rng.choice(["CS1", "CS2"])
            prog.append({"op": "seg", "n": seg})
        elif r < .5:
            prog.append(act(False))
        else:
            prog.append(show(rng.choice(KINDS), h, rng, quiet))
    for k in KINDS:
        prog.append(show(k, h, rng, quiet))
    prog.append({"op": "ends", "n": seg})
    return {"h": h, "prog": prog, "pre": pre}


def expand(v, rng):
    """a history of settings, with statements that show them after each step"""
    h = dict(v["h"], late=rng.random() < .3)
    hist = v["hist"]
    pre = rng.choice([0, 0, len(hist), rng.randint(0, len(hist))])
    while any(S["op"] == "cpu" and S["d"]["lvl"] < 3 for S in hist[:pre]):
        pre -= 1
    prog = hist[:pre] + [{"op": "seg", "n": "CS1"}]
    for S in hist[pre:] + [None]:
        if S:
            prog.append(S)
        for k in KINDS:
            prog.append(show(k, h, rng, rng.random() < .8))
    return {"h": h, "prog": prog + [{"op": "ends", "n": "CS1"}], "pre": pre}


def batch(c, cases, label, rng):
    rs, tags = tlc_batch("ContextBatch", cases, timeout=900)
    c.add_tlc(rs, label)
    return judge_cases(c, cases, [tags["V"][j][0] for j in range(len(cases))], label, rng, True)


def main_(c):
    rng = c.rng
    k = 5 if THOROUGH else 4
    r = tlc("ContextModel", "ContextModel%d" % k, workers=8, timeout=1800, heap="8g")
    c.add_tlc(r, "every history of up to %d changes, saves and restores" % k)
    pool = [v for _, _, v in r.prints]
    rng.shuffle(pool)
    for a in range(0, 30000 if THOROUGH else 900, 3000):
        batch(c, [expand(v, rng) for v in pool[a:a + 3000][:30000 if THOROUGH else 900]], "histories enumerated by TLC", rng)
    for rnd in range(12 if THOROUGH else 1):
        texts = batch(c, [gen(rng) for _ in range(4000 if THOROUGH else 1000)], "seeded histories", rng)
        if rnd == 0:
            c.sample({"module": texts[0]})


if __name__ == "__main__":
    main("C10", main_)
