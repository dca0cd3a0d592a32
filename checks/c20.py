#!/usr/bin/env python3
"""C20: machine code decodes to what was written (X86.tla, X86Ins.tla, X86Mem.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from x86 import *

# instructions put around each enumerated memory operand: name, operand size, operands before and behind it
AROUND = [("mov", 1, ["cl"], []), ("mov", 1, [], ["bh"]), ("mov", 2, ["dx"], []), ("mov", 4, ["esi"], []), ("lea", 4, ["edi"], []), ("add", 1, [], [0x12]), ("add", 2, [], [0x1234]),
          ("and", 4, [], [0x12345678]), ("cmp", 4, [], [-3]), ("imul", 4, ["ebx"], [0x777]), ("shl", 2, [], [5]), ("inc", 4, [], []), ("push", 2, [], []), ("neg", 1, [], []),
          ("movzx", 1, ["eax"], []), ("movzx", 2, ["ebp"], []), ("test", 1, [], ["dl"]), ("xchg", 2, ["cx"], []), ("sete", 1, [], []), ("bt", 4, [], [3]), ("shld", 4, [], ["ecx", 7]),
          ("cmovb", 4, ["edx"], []), ("bsf", 2, ["si"], []), ("fld", 8, [], []), ("fild", 2, [], []), ("fstp", 10, [], []), ("movq", 8, ["mm3"], []), ("paddb", 8, ["mm1"], []),
          ("movaps", 16, ["xmm2"], []), ("movups", 16, [], ["xmm7"]), ("addps", 16, ["xmm1"], []), ("addss", 4, ["xmm5"], []), ("mulsd", 8, ["xmm3"], []), ("cvtsi2sd", 4, ["xmm6"], []),
          ("pshufd", 16, ["xmm4"], [0x1b]), ("movd", 4, ["xmm0"], []), ("pinsrw", 2, ["xmm1"], [3]), ("vaddps", 16, ["xmm1", "xmm2"], []), ("vmulpd", 32, ["ymm3", "ymm4"], []),
          ("vpaddd", 16, ["xmm7", "xmm0"], []), ("vpshufd", 16, ["xmm3"], [9]), ("vfmadd231ps", 16, ["xmm1", "xmm5"], [])]
# operations outside these mean different things in one text, or are as lenient as known findings say
FREE = {"call", "jmp", "callf", "jmpf", "bound", "clflush", "sldt", "str", "smsw", "fnstsw", "fstsw", "crc32", "movd", "movq", "pmuludq", "prefetchnta", "prefetcht0", "prefetcht1", "prefetcht2",
        "prefetch", "prefetchw", "blendvps", "blendvpd", "pblendvb", "andn", "bextr", "blsi", "blsr", "blsmsk", "bzhi", "mulx", "pdep", "pext", "rorx", "sarx", "shlx", "shrx", "pinsrw", "pextrw",
        "lds", "les", "lss", "lfs", "lgs", "lar", "lsl", "invlpg", "in", "out", "cvtsi2sd", "cvtsi2ss", "mpsadbw", "movmskps", "movmskpd", "pmovmskb", "extractps", "ret", "retn", "retf", "xlat", "xlatb"}


def lenient_region(w, mode):
    """combinations that are accepted although they have no encoding: known findings"""
    m, rs = memof(w), gprs(w)
    if w["op"] in FREE or w["op"][0] == "v" and w["op"] not in ("verr", "verw"):
        return True
    if any(n[:3] == "ymm" for n in rs):
        return True
    if m and any(n[:3] == "xmm" or n[:2] == "mm" for n in rs):
        return True
    if m and m["sz"] >= 16:
        return True
    if w["op"] == "mov" and m and any(n in ("es", "cs", "ss", "ds", "fs", "gs") for n in rs):
        return True
    if m and m["sz"] in (6, 8, 10) and w["args"][-1]["k"] == "i":
        return True
    return False


def shape_mem(mode, x, sz):
    d = int.from_bytes(bytes(x["d"]), "little", signed=True)
    sh = x["sh"]
    regs = ([(sh["base"], 1)] if sh["base"] else []) + ([(sh["ix"], sh["f"])] if sh["ix"] else [])
    if sh["ix"] and sh["f"] == 1 and (not sh["base"] or sh["base"] == sh["ix"]):
        return None          # [eax*1], [eax+eax]: written as [eax], [eax*2]
    return mem(sz, x["a"], regs, d)


def around(rng, mode, x):
    for _ in range(20):
        op, sz, pre, post = rng.choice(AROUND)
        if mode == 16 and op[0] == "v" and op not in ("vaddps", "vmulpd"):
            continue
        m = shape_mem(mode, x, sz)
        if m is None:
            return None
        arg = lambda a: reg(a) if isinstance(a, str) else imm(a)
        w = {"op": op, "args": [arg(a) for a in pre] + [m] + [arg(a) for a in post], "rep": "", "lock": False}
        rex = mode == 64 and any(r[0][1:2].isdigit() or r[0][0] == "r" and r[0][-1] == "d" for r in m["regs"])
        if "bh" in post and rex:
            continue
        if not known_region(w, mode):
            return w
    return None


def run_groups(c, groups, label, judge_rejected=False):
    """assemble, let TLC read the code next to the written instructions, report what disagrees"""
    res = assemble(groups)
    cs = cases_for(groups, res)
    rs, tags = tlc_batch("X86Batch", cs, timeout=700)
    c.add_tlc(rs, "decoding: " + label)
    n = 0
    for g, ((mode, ws), (rej, code)) in enumerate(zip(groups, res)):
        acc = [k for k in range(len(ws)) if k not in rej]
        n += len(acc)
        c.count("accepted", len(acc))
        c.count("rejected", len(rej))
        va = tags["V"][2 * g][0]
        if code is None or va["bad"]:
            suspects(c, mode, [ws[k] for k in acc], label)
    return n


def suspects(c, mode, ws, label):
    """each instruction of a module that is not read back, by itself"""
    groups = [(mode, [w]) for w in ws]
    res = []
    for mode_, one in groups:
        r = run_single(module(mode_, one)[0], ("-bin",), "bin")
        res.append((set() if r.out is not None else {0}, r.out))
    rs, tags = tlc_batch("X86Batch", cases_for(groups, res), timeout=700)
    hit = False
    for g, (_, one) in enumerate(groups):
        bad = tags["V"][2 * g][0]["bad"]
        if res[g][0] or not bad:
            continue
        hit = True
        c.violation("%s, %d-bit: '%s' gives %s, which reads %s" % (label, mode, text(one[0]), hexs(res[g][1]), readable(bad[2])),
                    files={"m.asm": module(mode, one)[0]}, options="-bin", instruction=clean(one[0]), mode=mode, decoded=bad)
    if not hit:
        # the code of one may depend on the others: take the whole module
        r = run_single(module(mode, ws)[0], ("-bin",), "bin")
        g = [(mode, ws)]
        rs, tags = tlc_batch("X86Batch", cases_for(g, [(set(), r.out)]), timeout=700)
        bad = tags["V"][0][0]["bad"]
        if r.out is None or bad:
            c.violation("%s, %d-bit: %s" % (label, mode, "no output" if r.out is None else "instruction %d of the module: '%s'; code reads %s" % (bad[0], text(ws[bad[0] - 1]) if bad[0] else "", readable(bad[2]))),
                        files={"m.asm": module(mode, ws)[0]}, options="-bin")


def readable(d):
    if isinstance(d, str):
        return d
    if d.get("op") == "?":
        return "as no instruction"
    def a(x):
        if x["k"] == "r":
            return x["n"]
        if x["k"] == "i":
            return "0x" + bytes(reversed(x["v"])).hex()
        return "%s[%s %s]%s" % (x["seg"] + ":" if x["seg"] else "", "+".join("%s*%d" % tuple(r) for r in x["regs"]), "0x" + bytes(reversed(x["d"])).hex(), ":%d" % x["sz"])
    return " ".join(filter(None, [d["rep"], "lock" if d["lock"] else "", str(d["op"]), ", ".join(map(a, d["args"]))]))


def rejections(c, rng, rows, n):
    """operands exchanged: whatever TLC finds no encoding for must be an error"""
    groups = []
    for mode in (16, 32, 64):
        pool = [w for r in rows for w in [from_row(rng, r, mode)] if w]
        ws = []
        for _ in range(n):
            for w in pool:
                if lenient_region(w, mode) and rng.random() < .9:
                    continue
                v = mutant(rng, w, mode, pool)
                if not lenient_region(v, mode) and not known_region(v, mode):
                    ws.append(v)
        groups += [(mode, ws[i:i + 40]) for i in range(0, len(ws), 40)]
    rs, tags = tlc_batch("X86Batch", [{"mode": m, "ins": [clean(w) for w in ws], "code": [0] * 16, "len": 0} for m, ws in groups], timeout=700)
    c.add_tlc(rs, "instructions without an encoding")
    neg = [(m, [w for j, w in enumerate(ws, 1) if j not in tags["V"][g][0]["enc"]]) for g, (m, ws) in enumerate(groups)]
    mods = [module(m, ws) for m, ws in neg]
    left = []
    for (m, ws), (t, at), r in zip(neg, mods, run_many([x[0] for x in mods], ("-bin", "-e999"))):
        c.count("instructions without an encoding", len(ws))
        lines = {x[1] for x in r.errors}
        left += [(m, ws[k]) for ln, k in at.items() if ln not in lines]
    c.count("looked at again singly", len(left))
    for m, w in left[:400]:
        t, at = module(m, [w])
        r = run_single(t, ("-bin",), "bin")
        if r.out is not None or not r.errors:
            c.violation("%d-bit: '%s' has no encoding and is accepted: %s" % (m, text(w), hexs(r.out)), files={"m.asm": t}, options="-bin", instruction=clean(w), mode=m)
    c.traces(len(neg), "modules of instructions without an encoding")


def known(c):
    for k in c.known:
        r = run_single(k["input"], ("-bin",), "bin")
        if hexs(r.out) == k["gives"]:
            c.known_finding(k["what"])


def main_(c):
    rng = c.rng
    known(c)
    r = tlc("X86Mem", "X86MemDeep" if THOROUGH else "X86Mem", workers=8, timeout=3000, heap="6g")
    c.add_tlc(r, "every memory operand: encode, decode")
    shapes = [(md, x) for _, md, x in r.prints]
    rng.shuffle(shapes)
    if not THOROUGH:
        # every base/index/scale of each mode and address size once, and then some
        seen, first, rest = set(), [], []
        for md, x in shapes:
            key = (md, x["a"], x["sh"]["base"], x["sh"]["ix"], x["sh"]["f"])
            (rest if key in seen else first).append((md, x))
            seen.add(key)
        shapes = first[:1500] + rest[:200]
    by = {16: [], 32: [], 64: []}
    for md, x in shapes:
        w = around(rng, md, x)
        if w:
            by[md].append(w)
    groups = [(m, by[m][i:i + 40]) for m in by for i in range(0, len(by[m]), 40)]
    n = run_groups(c, groups, "memory operands")
    c.traces(len(groups), "modules of enumerated memory operands (%d instructions)" % n)
    c.sample({"module": module(*groups[0])[0][:800]})

    rows = [p[2] for p in tlc("X86Rows").prints]
    for rnd in range(10 if THOROUGH else 1):
        ins = {16: [], 32: [], 64: []}
        for mode in ins:
            for row in rows:
                for _ in range(4 if THOROUGH else 1):
                    w = from_row(rng, row, mode)
                    if w and not known_region(w, mode):
                        ins[mode].append(w)
            rng.shuffle(ins[mode])
        groups = [(m, ins[m][i:i + 40]) for m in ins for i in range(0, len(ins[m]), 40)]
        n = run_groups(c, groups, "table rows")
        c.traces(len(groups), "modules of instructions drawn from the table (%d instructions)" % n)
        rejections(c, rng, rows, 4 if THOROUGH else 1)
    c.assumptions += ["%d rows in the table: general, string, system, x87, MMX, SSE to SSE4, AVX, FMA, BMI instructions; not EVEX, XOP, 3DNow!" % len(rows),
                      "rejection is judged for general, x87, MMX and SSE register forms; AVX and BMI instructions and memory sizes of vector instructions are known to be lenient"]


if __name__ == "__main__":
    main("C20", main_)
