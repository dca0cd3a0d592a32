#!/usr/bin/env python3
"""C22: which definition a name denotes (Scope.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SPELL = {"x": ["xa", "XA", "xA"], "y": ["lab_1", "LAB_1", "Lab_1"], "z": ["?z", "?Z"], "w": ["w$0", "W$0"], "u": ["averyLongName0123456789", "averylongname0123456789"],
         "p0": ["p0", "P0"], "p1": ["p1", "P1"], "p2": ["pQ", "PQ"], "p3": ["p3", "P3"], "k": ["kk", "Kk", "kK"]}


# many names: neighbours, prefixes of each other, spellings that differ in case only
for _k in range(48):
    _b = "%s%s" % (["aa", "aab", "baa", "_q", "@r", "abc" * 12][_k % 6], _k // 6 if _k % 5 else "x" * (_k // 6 + 1))
    SPELL["n%d" % _k] = list(dict.fromkeys([_b, _b.upper(), _b[0].upper() + _b[1:], _b[:2] + _b[2:].upper()]))


def spell(n):
    return SPELL[n["b"]][n["v"]]


def line(S, last):
    op = S["op"]
    if op == "proc":
        last[0] = spell(S["n"])
        return last[0] + " proc" + (" " if S["ps"] else "") + ", ".join(spell(p) + ":dword" for p in S["ps"])
    if op == "endp":
        return last[0] + " endp"
    return {"local": lambda: "local %s:dword" % spell(S["n"]), "lab": lambda: spell(S["n"]) + ":", "glab": lambda: spell(S["n"]) + "::",
            "data": lambda: spell(S["n"]) + " dd 0EEEEEEEEh", "here": lambda: spell(S["n"]) + " label dword",
            "const": lambda: "%s equ %d" % (spell(S["n"]), S["v"]), "anon": lambda: "@@:", "dd": lambda: "dd " + spell(S["n"]),
            "lea": lambda: "lea eax, " + spell(S["n"]), "back": lambda: "dd @B", "fwd": lambda: "dd @F",
            "scoped": lambda: "option " + ("scoped" if S["on"] else "noscoped")}[op]()


HEAD = [".386", ".model flat, c", "option prologue:none, epilogue:none"]


def source(prog, cs, end=True, pad=None):
    last = [""]
    L = HEAD + (["option casemap:none"] if cs else ["option casemap:notpublic"] if pad and pad.random() < .2 else []) + [".code"]
    at = []
    for S in prog:
        if pad and pad.random() < .1:
            L.append("")
        at.append(len(L) + 1)
        L.append(line(S, last))
    return "\n".join(L + ["db 0EEh", "end"]) + "\n", at


def wrong_for(mods):
    def wrong(j, r):
        v, at = mods[j]
        if r.rc == "timeout":
            return "no end"
        lines = [m[1] for m in r.errors]
        if v["err"]:
            mis = {at[p - 1] for p in v["mis"]}      # found at once, and go on
            lines = [l for l in lines if l not in mis]
            return None if lines[:1] == [at[v["err"] - 1]] else "second definition in line %d: errors in lines %s" % (at[v["err"] - 1], lines)
        bad = sorted(at[p - 1] for p in v["undef"] + v["mis"])
        if bad:
            # a misuse of the stack is found in the first pass already
            want = [bad, sorted(at[p - 1] for p in v["mis"])] if v["mis"] else [bad]
            return None if sorted(set(lines)) in want else "not defined in lines %s: errors in lines %s" % (bad, lines)
        if lines:
            return "rejected in lines %s" % lines
        if r.out != bytes(v["img"]) + b"\xee":
            return "image %s, expected %s" % (hexs(r.out or b""), hexs(bytes(v["img"]) + b"\xee"))
    return wrong


def gen(rng):
    cs = rng.random() < .5
    big = rng.random() < .08
    names = rng.sample(["x", "y", "z", "w", "u"], rng.choice([1, 2, 2, 3])) if not big else ["n%d" % k for k in range(48)]

    def nm(b=None):
        b = b or rng.choice(names)
        return {"b": b, "v": rng.randrange(len(SPELL[b])) if rng.random() < .4 else 0}
    if rng.random() < .03:       # many anonymous labels
        n = rng.randint(60, 200)
        prog = [{"op": rng.choice(["anon", "anon", "back", "fwd"])} for _ in range(n)]
        return {"cs": cs, "prog": [{"op": "anon"}] + prog + [{"op": "anon"}]}
    prog = []
    free = ["p0", "p1", "p2", "p3"]
    inproc = False
    dirty = rng.random() < (.35 if not big else .1)      # likely to hold second definitions
    have = {0: set(), 1: set()}
    key = lambda n: (n["b"], n["v"] if cs else 0)
    scoped = True

    def defn(op, local, n=None, **kw):
        n = n or nm()
        for _ in range(3):
            if dirty or not (key(n) in have[0] or (inproc and key(n) in have[1])):
                break
            n = nm()
        else:
            return None
        have[1 if local else 0].add(key(n))
        return dict(op=op, n=n, **kw)
    for _ in range(rng.randint(6, 26) if not big else 150):
        r = rng.random()
        S = None
        if r < .12 and not inproc and free:
            have[1] = set()
            inproc = True
            ps = []
            for _ in range(rng.choice([0, 0, 1, 2]) if not big else rng.randint(0, 8)):
                d = defn("", True)
                if d:
                    ps.append(d["n"])
            prog.append({"op": "proc", "n": nm(free.pop(0)), "ps": ps})
            for _ in range(rng.choice([0, 0, 0, 1, 2]) if not big else rng.randint(0, 12)):
                d = defn("local", True)
                if d:
                    prog.append(d)
            continue
        if r < .24 and inproc:
            inproc = False
            S = {"op": "endp"}
        elif r < .44:
            S = defn("lab", inproc and scoped)
        elif r < .5:
            S = defn(rng.choice(["glab", "here"]), False)
        elif r < .56:
            S = defn("data", False)
        elif r < .59:
            S = defn("const", False, v=rng.randrange(1, 1000))
        elif r < .66:
            S = {"op": "anon"}
        elif r < .74:
            S = {"op": rng.choice(["back", "fwd"])}
        elif r < .75:
            scoped = not scoped
            S = {"op": "scoped", "on": scoped}
        else:
            used = sorted({S["n"]["b"] for S in prog if "n" in S and S["n"]["b"][0] != "p"}) or names
            b = rng.choice(used if rng.random() < .85 else names + ["p0", "p1"])
            S = {"op": rng.choice(["dd", "dd", "lea"]), "n": nm(b)}
        if S:
            prog.append(S)
    if inproc:
        prog.append({"op": "endp"})
    # most programs define what they use
    if rng.random() < .7:
        nb = [S for S in prog if S["op"] == "fwd"]
        if nb:
            prog.append({"op": "anon"})
        prog = ([{"op": "anon"}] if any(S["op"] == "back" for S in prog) else []) + prog
        for S in [S for S in prog if S["op"] in ("dd", "lea")]:
            if key(S["n"]) not in have[0] and rng.random() < .9:
                have[0].add(key(S["n"]))
                prog.append({"op": "data", "n": S["n"]})
    return {"cs": cs, "prog": prog}


def exhaustive(c, rng):
    k = 6 if THOROUGH else 5
    r = tlc("ScopeModel", "ScopeModel%d" % k, workers=8 if THOROUGH else 6, timeout=3000, heap="8g")
    c.add_tlc(r, "every source of up to %d statements" % k)
    pool = [v for _, _, v in r.prints]
    rng.shuffle(pool)
    pool = pool[:60000 if THOROUGH else 2500]
    texts, mods = [], []
    for v in pool:
        if v["v"]["open"]:
            continue
        t, at = source(v["prog"], v["cs"])
        texts.append(t)
        mods.append((v["v"], at))
    judge(c, texts, wrong_for(mods), "exhaustive")
    c.traces(len(texts), "sources enumerated by TLC")


def main_(c):
    rng = c.rng
    exhaustive(c, rng)
    for rnd in range(12 if THOROUGH else 1):
        cases = [gen(rng) for _ in range(4000 if THOROUGH else 1600)]
        rs, tags = tlc_batch("ScopeBatch", cases, timeout=900)
        c.add_tlc(rs, "seeded sources")
        texts, mods = [], []
        for j, cse in enumerate(cases):
            v = tags["V"][j][0]
            if v["open"]:
                c.count("dropped: unspecified")
                continue
            c.count("second definition" if v["err"] else "undefined name" if v["undef"] or v["mis"] else "valid")
            t, at = source(cse["prog"], cse["cs"], pad=rng)
            texts.append(t)
            mods.append((v, at))
        judge(c, texts, wrong_for(mods), "seeded")
        c.traces(len(texts), "seeded sources")
        if rnd == 0:
            c.sample({"module": texts[0]})
    c.assumptions += ["a constant is not used as a memory operand", "procedures do not nest (the assembler rejects that)"]


if __name__ == "__main__":
    main("C22", main_)
