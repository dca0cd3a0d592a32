"""Instructions for X86Ins.tla: generation from the table of X86.tla, text, judgement."""
from vlib import *

R = {1: "al cl dl bl ah ch dh bh".split(), 2: "ax cx dx bx sp bp si di".split(), 4: "eax ecx edx ebx esp ebp esi edi".split(),
     8: "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()}
R64 = {1: R[1] + "spl bpl sil dil".split() + ["r%db" % i for i in range(8, 16)], 2: R[2] + ["r%dw" % i for i in range(8, 16)],
       4: R[4] + ["r%dd" % i for i in range(8, 16)], 8: R[8]}
PTR = {1: "byte", 2: "word", 4: "dword", 6: "fword", 8: "qword", 10: "tbyte", 16: "xmmword", 32: "ymmword"}
HEAD = {16: [".686p", ".mmx", ".xmm", "seg1 segment use16 'CODE'", "assume cs:seg1, ds:nothing"],
        32: [".686p", ".mmx", ".xmm", ".model flat", ".code", "assume fs:nothing, gs:nothing"], 64: [".x64", ".model flat, fastcall", ".code", "assume fs:nothing, gs:nothing"]}
TAIL = {16: ["seg1 ends", "end"], 32: ["end"], 64: ["end"]}
EDGE = [0, 1, 2, 5, 127, 128, 129, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
        0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, -1, -2, -127, -128, -129, -255, -256, -32767, -32768, -0x7fffffff, -0x80000000, -0x80000001]


def b8(n):
    return list((n & 0xffffffffffffffff).to_bytes(8, "little"))


def reg(n):
    return {"k": "r", "n": n}


def imm(n):
    return {"k": "i", "v": b8(n), "_t": num(n)}


def num(n):
    s = "%x" % abs(n)
    s = "%d" % abs(n) if abs(n) < 10 else ("0" if s[0] in "abcdef" else "") + s + "h"
    return ("-" if n < 0 else "") + s


def mem(sz, a, regs, disp, seg="", text=None):
    """regs: [(name, factor)], text order"""
    d = {}
    for r, f in regs:
        d[r] = d.get(r, 0) + f
    t = "+".join(r if f == 1 else "%s*%d" % (r, f) for r, f in regs)
    if not regs:
        t = num(disp % (1 << a)) if disp >= 0 or a < 64 else num(disp)
    elif disp:
        t += num(disp) if disp < 0 else "+" + num(disp)
    t = (seg + ":" if seg else "") + "[" + t + "]"
    base = [r for r, f in regs if r in ("esp", "rsp")] + [r for r, f in regs if r in ("bx", "bp")] + [r for r, f in regs if f == 1]
    return {"k": "m", "sz": sz, "a": a, "seg": seg, "base": (base + [""])[0], "regs": [[r, f] for r, f in d.items()], "d": b8(disp), "_t": text or t}


def disps(rng, a):
    r = rng.random()
    if r < .3:
        return 0
    if r < .8:
        return rng.choice([1, -1, 4, 127, 128, -128, -129, 255, 256, 0x1234, -0x1234] + ([0x7fff, -0x7fff, 0x7fffffff, -0x80000000, 0x12345678] if a > 16 else [0x7fff, -0x8000]))
    return rng.randint(-200, 200)


def rmem(rng, mode, sz):
    seg = rng.choice(["", "", "", "", "fs", "gs"] if mode == 64 else ["", "", "", "ds", "es", "ss", "cs", "fs", "gs"])
    a = {16: rng.choice([16, 16, 32]), 32: rng.choice([32, 32, 32, 16]), 64: rng.choice([64, 64, 64, 32])}[mode]
    r = rng.random()
    if mode == 64 and r < .1:
        k = 0       # the known finding rip-addend
        return mem(sz, 64, [], k, "", "lab%s" % ("+%d" % k if k else ""))
    if r < .18 and mode != 64:
        a = mode
        return mem(sz, a, [], rng.choice([0, 1, 0x1234, 0x7fff, 0x8000, 0xffff] + ([0x12345678, 0x80000000, 0xffffffff] if a == 32 else [])), seg or "ds")
    if a == 16:
        regs = rng.choice([["bx"], ["bp"], ["si"], ["di"], ["bx", "si"], ["bx", "di"], ["bp", "si"], ["bp", "di"]])
        return mem(sz, a, [(x, 1) for x in regs], disps(rng, a), seg)
    names = R64[4 if a == 32 else 8][:8 if mode != 64 else 16]
    base = rng.choice(names)
    ix = [n for n in names if n not in ("esp", "rsp")]
    if r < .5:
        regs = [(base, 1)]
    elif r < .85:
        i, f = rng.choice(ix), rng.choice([1, 2, 4, 8])
        regs = [(base, 1), (i, f)]
        if f == 1 and base == i:
            regs = [(base, 1), (i, 2)]
    else:
        regs = [(rng.choice(ix), rng.choice([2, 4, 8]))]
    return mem(sz, a, regs, disps(rng, a), seg)


def rreg(rng, mode, sz):
    return reg(rng.choice((R64 if mode == 64 else R)[sz]))


def operand(rng, a, vs, l, mode, szs):
    """an operand of kind a; sizes of memory operands go to szs"""
    c, t = a[0], a[1]
    g = {"b": 1, "w": 2, "d": 4, "q": 8, "v": vs, "y": 8 if vs == 8 else 4}.get(t, 0)
    isy = t in ("y", "y2") or (t == "x" and l)
    vec = lambda: reg("%smm%d" % ("y" if isy else "x", rng.randrange(16 if mode == 64 else 8)))
    if c == "E":
        return rreg(rng, mode, g) if rng.random() < .45 else rmem(rng, mode, g)
    if c in "GRZ":
        return rreg(rng, mode, g)
    if c == "A":
        return reg(R[g][0])
    if c in ("M", "MV"):
        n = {"v": vs, "p": vs + 2, "2v": 2 * vs, "y": 8 if vs == 8 else 4, "x": 32 if l else 16}.get(t, t)
        return rmem(rng, mode, n)
    if c == "F":
        return reg(t)
    if c == "1":
        return imm(1)
    if c == "I":
        w = {"b": 1, "w": 2, "s": 1, "z": min(vs, 4), "v": vs}[t]
        if rng.random() < .5:
            return imm(rng.choice([e for e in EDGE if -(1 << (8 * w - 1)) <= e < (1 << (8 * w - (1 if t in "sz" and vs > w else 0)))]))
        return imm(rng.randrange(1 << (8 * w - 1)))
    if c == "O":
        return mem(g, mode, [], rng.choice([0, 5, 0x1234, 0xffff]), "ds") if mode != 64 else rmem(rng, mode, g)
    if c == "S":
        return reg(rng.choice(["es", "cs", "ss", "ds", "fs", "gs"]))
    if c == "C":
        return reg(rng.choice(["cr0", "cr2", "cr3", "cr4"] + (["cr8"] if mode == 64 else [])))
    if c == "D":
        return reg(rng.choice(["dr0", "dr1", "dr2", "dr3", "dr6", "dr7"]))
    if c in "PN" or (c == "Q" and rng.random() < .5):
        return reg("mm%d" % rng.randrange(8))
    if c == "Q":
        return rmem(rng, mode, t)
    if c == "H" and t == "y":
        return rreg(rng, mode, g)
    if c in "VHUL" or (c == "W" and rng.random() < .5):
        return vec()
    if c == "W":
        return rmem(rng, mode, (32 if l else 16) if t == "x" else a[2])
    return reg("st(%d)" % rng.randrange(8))


LOCKABLE = "add or adc sbb and sub xor inc dec not neg xchg xadd cmpxchg bts btr btc".split()
REPS = {"movs": ["rep"], "stos": ["rep"], "lods": ["rep"], "ins": ["rep"], "outs": ["rep"], "cmps": ["repe", "repne", "repz", "repnz"], "scas": ["repe", "repne"]}


def from_row(rng, row, mode):
    """an instruction of the row, or None if the mode has none"""
    fl = row["fl"]
    if ("i64" in fl and mode == 64) or ("o64" in fl and mode != 64):
        return None
    vss = [2, 4] + ([8] if mode == 64 else [])
    if mode == 64:
        vss = [8] if "f64" in fl else [2, 8] if "d64" in fl else [2, 4] if "noq" in fl else vss
    if "w1" in fl and "vex" not in fl and mode != 64:
        return None
    vs = rng.choice(vss)
    if row["op"] in ("call", "jmp") and mode == 16 or row["op"] == "popa" and 0:
        vs = 2
    if row["op"] in ("callf", "jmpf") and mode != 16:
        vs = 4
    if "sized" in fl and mode == 32 and vs == 2 and row["op"][0] in ("pusha", "popa", "pushf", "popf", "iret"):
        vs = 4
    l = 1 if "l1" in fl else 0 if "l0" in fl or "vex" not in fl else rng.randrange(2)
    op = row["op"]
    if "sized" in fl:
        op = op[{2: 0, 4: 1, 8: 2}[vs]]
        if not op:
            return None
    args = [operand(rng, a, vs, l, mode, None) for a in row["args"]]
    # the same memory operand only once; the row's registers that exclude each other
    w = {"op": op, "args": args, "rep": "", "lock": False}
    if op in LOCKABLE and args and args[0]["k"] == "m" and rng.random() < .15:
        w["lock"] = True
    for s, ps in REPS.items():
        if op.startswith(s) and not args and len(op) == len(s) + 1 and rng.random() < .3:
            w["rep"] = rng.choice(ps)
    return w


def text_arg(x):
    if x["k"] == "r":
        return x["n"]
    if x["k"] == "i":
        return x["_t"]
    return ("%s ptr " % PTR[x["sz"]] if x["sz"] in PTR else "") + x["_t"]


def text(w):
    s = " ".join(([w["rep"]] if w["rep"] else []) + (["lock"] if w["lock"] else []) + [w["op"][:-1] if w["op"] in ("callf", "jmpf") else w["op"]])
    return s + (" " + ", ".join(map(text_arg, w["args"])) if w["args"] else "")


def clean(w):
    return {"op": w["op"], "rep": w["rep"], "lock": w["lock"],
            "args": [{k: v for k, v in a.items() if k != "_t"} for a in w["args"]]}


def module(mode, ws, skip=()):
    L = list(HEAD[mode])
    if mode == 64:
        L.append("lab label byte")
    at = {}
    for k, w in enumerate(ws):
        if k not in skip:
            L.append(" " + text(w))
            at[len(L)] = k
    return "\n".join(L + TAIL[mode]) + "\n", at


def assemble(groups, opts=("-bin",)):
    """groups: [(mode, instructions)] -> [(rejected set, code or None)]; the rejected lines are left out in turn"""
    skip = [set() for _ in groups]
    code = [None] * len(groups)
    todo = list(range(len(groups)))
    for _ in range(6):
        mods = [module(groups[g][0], groups[g][1], skip[g]) for g in todo]
        nxt = []
        for g, (t, at), r in zip(todo, mods, run_many([m[0] for m in mods], opts)):
            if r.out is not None:
                code[g] = r.out
                continue
            if not r.errors and not [k for k in groups[g][1] if 0]:
                code[g] = b"" if len(skip[g]) == len(groups[g][1]) else None
            bad = {at[m[1]] for m in r.errors if m[1] in at}
            if bad:
                skip[g] |= bad
                nxt.append(g)
        todo = nxt
        if not todo:
            break
    return list(zip(skip, code))


def cases_for(groups, res):
    cs = []
    for (mode, ws), (rej, code) in zip(groups, res):
        acc = [k for k in range(len(ws)) if k not in rej]
        cs.append({"mode": mode, "ins": [clean(ws[k]) for k in acc], "code": list(code or b"") + [0] * 16, "len": len(code or b"")})
        cs.append({"mode": mode, "ins": [clean(ws[k]) for k in sorted(rej)], "code": [0] * 16, "len": 0})
    return cs


# ---- regions of known findings, left out by the generators (one fixed input each is in known_findings.json)
def gprs(w):
    return [a["n"] for a in w["args"] if a["k"] == "r"]


def memof(w):
    return next((a for a in w["args"] if a["k"] == "m"), None)


def hi(n, kind=("xmm", "ymm")):
    return n[:3] in kind and n[3:].isdigit() and int(n[3:]) >= 8


def known_region(w, mode):
    op, m, rs = w["op"], memof(w), gprs(w)
    anyhi = any(hi(n) for n in rs)
    asz = m and m["regs"] and m["a"] != mode
    r8 = m and any(r[0][1:2].isdigit() for r in m["regs"])
    if op in ("shlx", "shrx", "sarx", "bzhi", "bextr", "rorx"):
        return m or any(n in R64[4] for n in rs)
    if op in ("andn", "blsr", "blsi", "blsmsk", "mulx", "pdep", "pext"):
        return bool(m)
    if op in ("tzcnt", "lzcnt"):
        return mode == 16 or any(n in R64[2] for n in rs) or (m and m["sz"] == 2)
    if op in ("vpextrw", "vmaskmovdqu", "vcvtps2pd", "vcvtph2ps", "vcvtps2ph") and anyhi:
        return True
    if op in ("vmovntps", "vmovntpd") and r8:
        return True
    if op in ("vcvtps2pd", "vcvtph2ps", "vcvtps2ph", "vcvtsi2ss", "vcvtsi2sd") and (asz or m and mode == 16):
        return True
    if op in ("vpsrlw", "vpsrld", "vpsrlq", "vpsllw", "vpslld", "vpsllq", "vpsraw", "vpsrad", "vpslldq", "vpsrldq") and w["args"][-1]["k"] == "i" and (anyhi or m):
        return True
    if op in ("vmovdqa", "vmovdqu") and mode == 16 and m:
        return True
    if op == "xchg" and mode == 64 and rs == ["eax", "eax"]:
        return True
    return False


def mutant(rng, w, mode, pool):
    """an operand of w exchanged, mostly for one that no encoding of the operation has"""
    v = {**w, "args": list(w["args"])}
    r = rng.random()
    if not v["args"]:
        v["args"] = [rreg(rng, mode, 4)]
    elif r < .2 and len(v["args"]) > 1:
        i, j = rng.sample(range(len(v["args"])), 2)
        v["args"][i], v["args"][j] = v["args"][j], v["args"][i]
    elif r < .3:
        v["args"].pop(rng.randrange(len(v["args"])))
    elif r < .4:
        v["args"].append(rng.choice(rng.choice(pool)["args"] or [reg("eax")]))
    elif r < .55 and memof(v):
        k = next(k for k, a in enumerate(v["args"]) if a["k"] == "m")
        v["args"][k] = {**v["args"][k], "sz": rng.choice([1, 2, 4, 8, 16])}
    elif r < .7 and any(a["k"] == "i" for a in v["args"]):
        k = next(k for k, a in enumerate(v["args"]) if a["k"] == "i")
        v["args"][k] = imm(rng.choice(EDGE))
    else:
        k = rng.randrange(len(v["args"]))
        src = [a for p in (rng.choice(pool) for _ in range(4)) for a in p["args"]]
        v["args"][k] = rng.choice(src) if src else reg("ax")
    return v
