#!/usr/bin/env python3
"""C21: instructions are accepted exactly while the selected processor has them (Cpu.tla, CpuIns.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import x86

ASSUME = {16: "assume cs:T1, ds:T1, es:T1, ss:T1", 32: "assume cs:T1, ds:T1, es:T1, ss:T1, fs:nothing, gs:nothing", 64: "assume cs:T1, fs:nothing, gs:nothing"}
LOW = {".8086", ".186", ".286", ".286p"}
REGS = re.compile(r"\b(bx|si|di|bp)\b")


def spell(t, mode):
    if mode == 16 or "[" not in t:
        return t
    a, b = t.split("[", 1)
    m, z = b.split("]", 1)
    return a + "[" + REGS.sub(lambda x: "e" + x.group(1), m) + "]" + z


def lines_of(S, mode, table):
    if S["op"] == "dir":
        return S["t"]
    if S["op"] == "atcpu":
        return "dw @Cpu"
    if S["op"] == "row":
        return S["t"]
    return spell(table[S["n"] - 1]["t"], mode)


def source(cse, table, keep=lambda k: True):
    """-> text, {line: statement}"""
    mode, prog = cse["mode"], cse["prog"]
    L, at = [], {}
    opened = False
    for k, S in enumerate(prog):
        if not opened and not (S["op"] == "dir" and k < cse["before"]):
            L += ["T1 segment use%d 'CODE'" % mode, ASSUME[mode] if not cse["low"] else ASSUME[16]]
            opened = True
        if keep(k):
            L.append(lines_of(S, mode, table))
            at[len(L)] = k
    if not opened:
        L.append("T1 segment use%d 'CODE'" % mode)
    L += ["T1 ends", "end"]
    return "\n".join(L) + "\n", at


def references(table):
    """the code of every instruction by itself, with everything allowed"""
    ref = {}
    for mode in (16, 32, 64):
        texts, ns = [], []
        for n, i in enumerate(table, 1):
            if mode in i["modes"]:
                texts.append((".x64p" if mode == 64 else ".686p\n.xmm" if "mm" in i["t"] or True else "") + "\nT1 segment use%d 'CODE'\n%s\n%s\nT1 ends\nend\n" % (mode, ASSUME[mode], spell(i["t"], mode)))
                ns.append(n)
        for n, t, r in zip(ns, texts, run_many(texts)):
            if r.out is None and mode == 64:
                continue
            ref[mode, n] = r.out
    return ref


SHIFT = set("rcl rcr rol ror sar shl shr".split())
OPEN = set("cvtsi2ss vcvtsi2ss pmulhuw psraw vpsraw".split())     # accepted with .586 and .XMM
WIDE = set("eax ebx ecx edx esi edi ebp esp fs gs".split())


def kinds(w):
    ks = set()
    for a in w["args"]:
        if a["k"] == "r":
            ks.add("wide" if a["n"] in WIDE else a["n"].rstrip("0123456789") if "mm" in a["n"] else "reg")
        elif a["k"] == "m":
            if a["a"] > 16 or a["seg"] in WIDE or (a["sz"] == 4 and w["op"] not in ("lds", "les")) or (a["sz"] == 6 and w["op"] in ("lds", "les")):
                ks.add("wide")
        elif w["op"] in SHIFT and a["v"] != x86.b8(1):
            ks.add("count")
    return sorted(ks)


def row_pool(rng, n):
    """instructions of the opcode table whose requirement follows from name and registers"""
    rows = [p[2] for p in tlc("X86Rows").prints]
    names = set(re.findall(r'"(\w+)"', open(os.path.join(SPEC, "CpuIns.tla")).read().split("MmxOps ==")[1]))
    pool = {}
    for mode in (16, 32, 64):
        for r in rows:
            for _ in range(n):
                w = x86.from_row(rng, r, mode)
                # (a bare address may be written in 16 bits in a 32-bit segment)
                if not w or w["rep"] or w["lock"] or w["op"] in OPEN or any(a["k"] == "m" and not a["regs"] for a in w["args"]):
                    continue
                ks = kinds(w)
                if {"mm", "xmm", "ymm"} & set(ks) or w["op"] in names:
                    if not (w["op"] == "movzx" or w["op"] == "movsx"):
                        pool.setdefault((mode, x86.text(w)), {"op": "row", "o": w["op"], "ks": ks, "t": x86.text(w)})
    keys = list(pool)
    texts = [(".x64p" if m == 64 else ".686p\n.xmm") + "\nT1 segment use%d 'CODE'\n%s\nlab label byte\n%s\nT1 ends\nend\n" % (m, ASSUME[m], t) for m, t in keys]
    out = {16: [], 32: [], 64: []}
    ref = {}
    for k, r in zip(keys, run_many(texts)):
        if r.out is not None and k[1].split()[0] not in ("lgdt", "lidt") and "lab" not in k[1]:
            out[k[0]].append(pool[k])
            ref[k] = r.out
    return out, ref


def row_case(rng, mode, hist, pool, per):
    x = case_of(rng, mode, hist, [], 0)
    prog = []
    for k, S in enumerate(x["prog"]):
        prog.append(S)
        if S["op"] == "atcpu":
            for q in rng.sample(pool, per):
                if not (x["low"] and ("fs:" in q["t"] or "gs:" in q["t"])):
                    prog.append(q)
    x["prog"] = prog
    return x


def case_of(rng, mode, hist, table, per):
    prog = []
    # what may stand in front of the segment
    before = rng.randrange(0, len(hist) + 1) if mode == 16 else len(hist) if len(hist) == 1 else rng.randrange(1, len(hist) + 1)
    low = any(d in LOW for d in hist) or not any(d[1:4] in ("386", "486", "586", "686", "x64") for d in hist[:max(before, 0)])
    for d in hist[:before]:
        prog.append({"op": "dir", "t": d})
    for d in [None] + hist[before:]:
        if d:
            prog.append({"op": "dir", "t": d})
        prog.append({"op": "atcpu"})
        for _ in range(per):
            n = rng.randrange(len(table)) + 1
            if mode in table[n - 1]["modes"] or rng.random() < .1:
                prog.append({"op": "ins", "n": n})
    return {"mode": mode, "prog": prog, "before": before, "low": low}


def run_cases(c, cases, table, ref, label):
    rs, tags = tlc_batch("CpuBatch", [{"mode": x["mode"], "prog": x["prog"]} for x in cases], timeout=700)
    c.add_tlc(rs, label)
    outs = [tags["V"][j][0] for j in range(len(cases))]
    # a pass that finds errors is the last: those reported are taken out and the rest is assembled again
    left = [{k for k, v in enumerate(o) if v == -1 and cases[j]["prog"][k]["op"] in ("ins", "row")} for j, o in enumerate(outs)]
    gone = [set() for _ in cases]
    todo = list(range(len(cases)))
    for rnd in range(12):
        full = [source(cases[j], table, lambda k, j=j: k not in gone[j]) for j in todo]

        def wrong(q, r):
            j = todo[q]
            at = full[q][1]
            bad = {m[1] for m in r.errors}
            text = full[q][0].split("\n")
            for ln in bad:
                if at.get(ln) not in left[j]:
                    return "line %s, %r: rejected: %s" % (ln, text[ln - 1] if ln else "", [m[4] for m in r.errors if m[1] == ln][:1])
            miss = sorted(left[j] - gone[j])
            if miss and not bad:
                ln = [l for l in at if at[l] == miss[0]][0]
                return "line %d, %r: accepted" % (ln, text[ln - 1])
            return None

        rs = judge(c, [f[0] for f in full], wrong, label, opts=("-bin", "-e9999"))
        nxt = []
        for q, j in enumerate(todo):
            got = {full[q][1].get(m[1]) for m in rs[q].errors} & left[j]
            gone[j] |= got
            if got and left[j] - gone[j]:
                nxt.append(j)
        todo = nxt
        if not todo:
            break
    # without the rejected ones: each accepted instruction has the code it has by itself
    part = [source(x, table, lambda k: outs[j][k] != -1) for j, x in enumerate(cases)]

    def wrong_part(j, r):
        x = cases[j]
        want = b""
        for k, S in enumerate(x["prog"]):
            if S["op"] == "atcpu":
                want += (outs[j][k] & 0xffff).to_bytes(2, "little")
            elif S["op"] in ("ins", "row") and outs[j][k] != -1:
                q = ref.get((x["mode"], S["n"] if S["op"] == "ins" else S["t"]))
                if q is None:
                    return None
                want += (b"\x9b" if outs[j][k] == 2 else b"") + q
        if r.out != want:
            k = 0
            while r.out and k < min(len(r.out), len(want)) and r.out[k] == want[k]:
                k += 1
            return "the image differs at %d: %s, expected %s" % (k, hexs(r.out[k:k + 12]) if r.out is not None else r.brief(), want[k:k + 12].hex())
        return None

    judge(c, [p[0] for p in part], wrong_part, label + ", accepted instructions only")
    c.traces(len(cases), label)


def main_(c):
    rng = c.rng
    table = [p[2] for p in sorted(tlc("CpuTable").prints, key=lambda p: p[1])]
    ref = references(table)
    r = tlc("CpuModel", "CpuModel3" if THOROUGH else "CpuModel2", workers=8, timeout=2000)
    c.add_tlc(r, "every history of up to %d directives" % (3 if THOROUGH else 2))
    hists = [p[2]["h"] for p in r.prints]
    c.sample({"histories": len(hists), "instructions": len(table)})
    cases = [case_of(rng, 16, h, table, 30) for h in hists]
    H32, H64 = [], []
    for h in hists:
        first = h[0]
        if first not in LOW and first[1:4] in ("386", "486", "586", "686", "x64") and not any(d in LOW or d == ".8086" for d in h):
            cases.append(case_of(rng, 32, h, table, 30))
            H32.append(h)
        if all(d in (".x64", ".x64p", ".no87", ".387") for d in h) and first in (".x64", ".x64p"):
            H64.append(h)
            cases += [case_of(rng, 64, h, table, 60) for _ in range(6)]
    rng.shuffle(cases)
    run_cases(c, cases[:12000 if THOROUGH else 900], table, ref, "histories enumerated by TLC")
    pool, rref = row_pool(rng, 6 if THOROUGH else 2)
    c.sample({"instructions of the opcode table": {m: len(pool[m]) for m in pool}})
    ref.update(rref)
    cases = []
    for _ in range(4000 if THOROUGH else 400):
        mode = rng.choice([16, 16, 32, 64])
        hs = {16: hists, 32: H32, 64: H64}[mode]
        cases.append(row_case(rng, mode, rng.choice(hs), pool[mode], 40))
    run_cases(c, cases, table, ref, "instructions of the opcode table")
    dirs = sorted({h[0] for h in hists})
    for rnd in range(10 if THOROUGH else 1):
        cs = []
        for _ in range(600 if THOROUGH else 200):
            mode = rng.choice([16, 16, 32])
            ds = dirs if mode == 16 else [d for d in dirs if d not in LOW and d != ".8086"]
            h = [rng.choice(ds) for _ in range(rng.randint(3, 10))]
            if mode == 32:
                h[0] = rng.choice([".386", ".386p", ".486", ".586p", ".686", ".x64"])
            cs.append(case_of(rng, mode, h, table, 12))
        run_cases(c, cs, table, ref, "seeded histories")


if __name__ == "__main__":
    main("C21", main_)
