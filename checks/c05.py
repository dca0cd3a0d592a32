#!/usr/bin/env python3
"""C05: branch sizes and displacements (Branch.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CC = [["jo"], ["jno"], ["jb", "jc", "jnae"], ["jae", "jnc", "jnb"], ["jz", "je"], ["jnz", "jne"], ["jbe", "jna"],
      ["ja", "jnbe"], ["js"], ["jns"], ["jp", "jpe"], ["jnp", "jpo"], ["jl", "jnge"], ["jge", "jnl"], ["jle", "jng"], ["jg", "jnle"]]
MODES = {  # name: head, tail, near width, no near jcc, [(mnemonic, opcode, 67h prefixes)]
    "8086": ([".8086", "_T segment 'CODE'", "assume cs:_T"], ["_T ends"], 2, True,
             [("loop", 0xe2, 0), ("loope", 0xe1, 0), ("loopz", 0xe1, 0), ("loopne", 0xe0, 0), ("loopnz", 0xe0, 0), ("jcxz", 0xe3, 0)]),
    "286": ([".286", "_T segment word 'CODE'", "assume cs:_T"], ["_T ends"], 2, True, [("loop", 0xe2, 0), ("jcxz", 0xe3, 0)]),
    "386-16": ([".386", "_T segment use16 'CODE'", "assume cs:_T"], ["_T ends"], 2, False,
               [("loop", 0xe2, 0), ("loopd", 0xe2, 1), ("loopw", 0xe2, 0), ("jcxz", 0xe3, 0), ("jecxz", 0xe3, 1), ("looped", 0xe1, 1)]),
    "32": ([".386", ".model flat", ".code"], [], 4, False,
           [("loop", 0xe2, 0), ("loopd", 0xe2, 0), ("loopw", 0xe2, 1), ("jcxz", 0xe3, 1), ("jecxz", 0xe3, 0), ("loopne", 0xe0, 0)]),
    "32s": ([".586", "_T segment use32 'CODE'", "assume cs:_T"], ["_T ends"], 4, False, [("loop", 0xe2, 0), ("jecxz", 0xe3, 0), ("jcxz", 0xe3, 1)]),
    "64": ([".x64", ".model flat, fastcall", ".code"], [], 4, False,
           [("loop", 0xe2, 0), ("loopd", 0xe2, 1), ("jecxz", 0xe3, 1), ("jrcxz", 0xe3, 0), ("loope", 0xe1, 0)]),
}


def gen(rng, mode, align):
    head, tail, w, x, xcx = MODES[mode]
    nlab = rng.randint(1, 6)
    nbr = rng.randint(1, 10 if not align else 8)
    far = rng.choice([0, 0, 1, 1, 1, 2])
    items = []
    for l in range(nlab):
        items.append({"k": "lab", "id": l})
    for _ in range(nbr):
        t = rng.randrange(nlab)
        r = rng.random()
        it = {"k": "br", "px": 0, "bnd": 0, "pin": "", "t": t, "add": 0, "code": 0}
        if r < .35:
            it["op"] = "jmp"
        elif r < .75:
            it["op"], it["code"] = "jcc", rng.randrange(16)
        elif r < .85:
            it["op"] = "call"
        else:
            it["op"] = "xcx"
            m = rng.choice(xcx)
            it["mn"], it["code"], it["px"] = m
        if it["op"] in ("jmp", "jcc"):
            r = rng.random()
            if r < .06:
                it["pin"] = "short"
            elif r < .14 and not (x and it["op"] == "jcc"):
                it["pin"] = "near"
        if rng.random() < .06 and not x:
            it["add"] = rng.choice([1, 2, -1, 3])
        items.append(it)
    rng.shuffle(items)
    # fill so that distances are often around the limits
    res = []
    budget = rng.choice([118, 124, 126, 127, 128, 129, 130, 132]) if far else 60
    k = rng.randint(2, 5)
    for it in items:
        if rng.random() < .55:
            n = rng.choice([0, 1, 2, 3, budget // k, budget // k + 1, budget - rng.randrange(40), rng.randrange(1, 40)]) if far else rng.randrange(0, 12)
            if far == 2 and rng.random() < .25:
                n = budget + rng.randrange(-4, 6)
            if rng.random() < .01:
                n = rng.choice([300, 1000, 20000])
            if n > 0:
                res.append({"k": "fill", "n": n})
        if align and rng.random() < .25:
            res.append({"k": "al", "n": rng.choice([2, 4, 8, 16])})
        res.append(it)
    return res


def render(p, rng, mode, every=False):
    """-> text, line number of each item"""
    head, tail, w, x, xcx = MODES[mode]
    lines = list(head)
    pos = []
    flat = mode in ("32", "64")
    names = {}
    for it in p:
        if it["k"] == "lab":
            names[it["id"]] = "lab%d" % it["id"]
    kind = {l: rng.choice(["l:", "l:", "l:", "proc", "label", "l::"]) for l in names}
    pend = ""
    back = [k for k in range(len(p))]
    for k, it in enumerate(p):
        if every:
            lines.append("z%d:" % k)
        if not flat and rng.random() < .05 or flat and rng.random() < .03:
            if flat:
                lines += [".data", "db 3 dup (55h)", ".code"]
            else:
                lines += ["_T ends", "_D segment 'DATA'", "dw offset %s" % names[rng.choice(list(names))], "_D ends", "_T segment"]
        pos.append(len(lines) + 1)
        if it["k"] == "fill":
            r = rng.random()
            n = it["n"]
            if r < .5 or n < 2:
                lines.append("db %d dup (0cch)" % n)
            elif r < .7:
                a = rng.randrange(1, n)
                lines.append("db %d dup (0cch)" % a)
                lines.append("db %d dup (0cch)" % (n - a))
            elif r < .8 and any(q["k"] in ("fill", "br") for q in p[:k]):
                lines.append("org $ + %d" % n)
                it["org"] = True
            else:
                lines += ["repeat %d" % n, "int 3", "endm"] if n < 200 else ["db %d dup (0cch)" % n]
        elif it["k"] == "lab":
            n = names[it["id"]]
            v = kind[it["id"]]
            if v == "proc":
                lines += [n + " proc", n + " endp"]
            elif v == "label":
                lines.append(n + " label near")
            else:
                lines.append(n + v[1:])
        elif it["k"] == "al":
            lines.append("align %d" % it["n"] if it["n"] > 2 or rng.random() < .5 else "even")
        else:
            if it["op"] == "jcc":
                mn = rng.choice(CC[it["code"]])
            else:
                mn = it.get("mn", it["op"])
            t = names[it["t"]]
            if it["add"]:
                t += "%+d" % it["add"]
            if it["pin"] == "short":
                t = "short " + t
            elif it["pin"] == "near":
                t = "near ptr " + t
            elif it["op"] == "xcx" and rng.random() < .1:
                t = "short " + t
            lines.append(mn + " " + t)
    if every:
        lines.append("z%d:" % len(p))
        d = "dw" if w == 2 else "dd"
        for k in range(len(p) + 1):
            lines.append("%s offset z%d" % (d, k))
    lines += tail + ["end"]
    return "\n".join(lines) + "\n", pos


def case(p, mode):
    return {"p": [{a: b for a, b in it.items() if a not in ("mn", "org")} for it in p],
            "w": MODES[mode][2], "x": MODES[mode][3], "base": 0}


def image_ok(p, o, out):
    if len(out) < o["a"][-1]:
        return "too short"
    code = {k - 1: bytes(c) for k, c in o["c"]}
    for k, it in enumerate(p):
        a, b = o["a"][k], o["a"][k + 1]
        want = code.get(k)
        if it["k"] == "fill":
            want = (b"\0" if it.get("org") else b"\xcc") * (b - a)
            if it.get("org"):
                continue
        if want is not None and out[a:b] != want:
            return "item %d (%s) at %d: %s expected, %s found" % (k, it, a, want[:12].hex(), out[a:b][:12].hex())
    return None


def borderline(p, o):
    """A free forward branch to label+constant close to the limit of the short form:
    the assembler may then stay with the near form; only its target is specified."""
    pos = {it["id"]: o["a"][k] for k, it in enumerate(p) if it["k"] == "lab"}
    for k, it in enumerate(p):
        if it["k"] == "br" and it["add"] and it["op"] in ("jmp", "jcc") and not it["pin"]:
            if 110 <= pos[it["t"]] - o["a"][k] <= 150:
                return True
    return False


def plain(c, n):
    progs, texts, poss, modes = [], [], [], []
    names = list(MODES)
    for k in range(n):
        rng = random.Random("C05/%d/%d" % (SEED, k))
        m = names[k % len(names)]
        p = gen(rng, m, False)
        t, pos = render(p, rng, m, every=rng.random() < .1)
        progs.append(p), texts.append(t), poss.append(pos), modes.append(m)
    res, tags = tlc_batch("BranchBatch", [case(p, m) for p, m in zip(progs, modes)])
    c.add_tlc(res, "least layout of random programs")

    def wrong(i, r):
        o = tags["OUT"][i][0]
        if o["bad"]:
            lines = {poss[i][b - 1] for b in o["bad"]}
            got = {m[1] for m in r.errors}
            if r.out is not None:
                return "branches at lines %s cannot reach, but there is output" % sorted(lines)
            # an erroneous branch has no code, which can take others off their labels
            never = {poss[i][k] for k, it in enumerate(progs[i]) if it["k"] == "br" and (it["op"] == "xcx" or it["pin"] == "short")}
            if not got or min(got) not in lines or not got <= never:
                return "errors at lines %s, branches that cannot reach are at %s" % (sorted(got), sorted(lines))
            return None
        if r.out is None or r.errors:
            return "every branch reaches, but it is rejected"
        if borderline(progs[i], o):
            return None
        return image_ok(progs[i], o, r.out)

    judge(c, texts, wrong, lambda i: modes[i], lambda i, r: {"expected": tags["OUT"][i][0]})
    for i in range(n):
        o = tags["OUT"][i][0]
        c.count("rejected" if o["bad"] else "accepted")
        c.count("label+constant at the limit, form left open", int(borderline(progs[i], o)))
        c.count("near free branches", sum(1 for k, b in o["c"] if len(b) > 3 and progs[i][k - 1]["pin"] == "" and progs[i][k - 1]["op"] != "call"))
    c.traces(n, "programs without ALIGN")
    c.sample({"mode": modes[0], "program": progs[0]})


def aligned(c, n):
    progs, texts, modes, poss = [], [], [], []
    names = list(MODES)
    for k in range(n):
        rng = random.Random("C05a/%d/%d" % (SEED, k))
        m = names[k % len(names)]
        p = gen(rng, m, True)
        t, pos = render(p, rng, m, every=True)
        t = t.replace("_T segment word 'CODE'", "_T segment 'CODE'")
        progs.append(p), texts.append(t), modes.append(m), poss.append(pos)
    recs = {}

    def wrong(i, r):
        recs.pop(i, None)
        if r.out is None and not r.errors:
            return "no output and no error (%s)" % r.rc
        if r.out is None or r.errors:
            # only branches that can not do with the near form may be rejected
            never = {poss[i][k] for k, it in enumerate(progs[i]) if it["k"] == "br" and (it["op"] == "xcx" or it["pin"] == "short")}
            got = {m[1] for m in r.errors}
            if not got or not got <= never:
                return "errors at %s; only %s can be wrong" % (sorted(got), sorted(never))
            return None
        p, w = progs[i], MODES[modes[i]][2]
        addrs = None
        # the table of addresses stands behind the last item: its last entry names its own position
        for e in range(len(r.out) - w * (len(p) + 1), -1, -1):
            tab = [int.from_bytes(r.out[e + w * k:e + w * k + w], "little") for k in range(len(p) + 1)]
            if tab[-1] == e and tab[0] == 0 and all(a <= b for a, b in zip(tab, tab[1:])):
                addrs = tab
                break
        if addrs is None:
            return "the addresses stored behind the code are not those of the labels"
        cs = case(p, modes[i])
        cs["a"] = addrs
        cs["c"] = [[k + 1, list(r.out[addrs[k]:addrs[k + 1]])] for k, it in enumerate(p) if it["k"] == "br"]
        if any(len(x[1]) > 20 for x in cs["c"]):
            return "a branch of %d bytes" % max(len(x[1]) for x in cs["c"])
        recs[i] = cs

    judge(c, texts, wrong, lambda i: modes[i])

    def verdicts(idx):
        res, tags = tlc_batch("BranchBatch", [recs[i] for i in idx])
        c.add_tlc(res, "recorded layouts with ALIGN")
        return [i for j, i in enumerate(idx) if not all(tags["VERDICT"][j][0].values())]

    for i in verdicts(sorted(recs)):
        r = run_single(texts[i])
        if wrong(i, r) or i in recs and verdicts([i]):
            c.violation("%s: the layout is not consistent, not shortest or a branch misses its label" % modes[i],
                        files={"m.asm": texts[i]}, recorded=recs.get(i), actual=r.brief())
    c.count("aligned, accepted", len(recs))
    c.count("aligned, rejected", n - len(recs))
    c.traces(n, "programs with ALIGN")


def run(c):
    r = tlc("BranchModel", "BranchModelDeep" if THOROUGH else None, workers=NPROC, heap="6g")
    c.add_tlc(r, "BranchModel exhaustive")
    plain(c, 12000 if THOROUGH else 4000)
    aligned(c, 6000 if THOROUGH else 1600)


if __name__ == "__main__":
    main("C05", run)
