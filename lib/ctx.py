"""Modules that change and show settings (Context.tla): text, random programs, verdicts.  Used by C10 and C11."""
import re
from vlib import *

ORDER = ["D1", "D2", "D3", "CS1", "CS2"]
SYM = {"D1": "a1", "D2": "b1", "D3": "e1", "CS1": "cc1", "CS2": "cc2"}
INS = [  # text, bytes in 16-bit code (32-bit differs only by the 66 prefix of 16-bit operands), needs
    ("pusha", None, 1, 0, 0, ""), ("clts", [0x0F, 6], 2, 1, 0, ""), ("bsf ax, ax", None, 3, 0, 0, ""), ("xadd al, al", [0x0F, 0xC0, 0xC0], 4, 0, 0, ""),
    ("cpuid", [0x0F, 0xA2], 5, 0, 0, ""), ("ud2", [0x0F, 0x0B], 6, 0, 0, ""), ("fsetpm", [0xDB, 0xE4], 0, 0, 2, ""), ("fninit", [0xDB, 0xE3], 0, 0, 1, ""),
    ("fsin", [0xD9, 0xFE], 0, 0, 3, ""), ("emms", [0x0F, 0x77], 5, 0, 0, "MMX"), ("femms", [0x0F, 0x0E], 5, 0, 0, "K3D"), ("sfence", [0x0F, 0xAE, 0xF8], 6, 0, 0, "SSE"),
    ("cld", [0xFC], 0, 0, 0, "")]
CPUS = [(".%s%s" % (n, p), {"k": "cpu", "lvl": l, "pm": bool(p)}) for l, n, ps in
        [(0, "8086", [""]), (1, "186", [""]), (2, "286", ["", "p"]), (3, "386", ["", "p"]), (4, "486", ["", "p"]), (5, "586", ["", "p"]), (6, "686", ["", "p"])] for p in ps]
FPUS = [(t, {"k": "fpu", "fpu": f}) for t, f in [(".8087", 1), (".287", 2), (".387", 3), (".no87", 0)]]
EXTS = [(t, {"k": "ext", "ext": e}) for t, e in [(".mmx", ["MMX"]), (".k3d", ["MMX", "K3D"]), (".xmm", ["MMX", "SSE"])]]


def ins_op(k, use):
    t, b, lvl, pm, fpu, ext = INS[k]
    if b is None:
        b = {"pusha": [0x60], "bsf ax, ax": [0x0F, 0xBC, 0xC0]}[t]
        b = ([0x66] if use == 32 and t[0] == "b" else []) + b
    return {"op": "ins", "i": {"b": b, "lvl": lvl, "pm": bool(pm), "fpu": fpu, "ext": ext, "wait": t in ("fsetpm", "fsin")}, "t": t}


def operand(x, rng):
    """the source text of a memory operand"""
    s = SYM[x["seg"]] if x["seg"] else ""
    if x["seg"] and x["off"] - x["at"]:
        s += " + %dt" % (x["off"] - x["at"])
    regs = [r for r in (x["base"],) if r] + ([x["idx"] + ("*%dt" % (1 << x["sc"]) if x["sc"] else "")] if x["idx"] else [])
    if x["use"] == 16 and len(regs) == 2 and rng.random() < .3:
        regs.reverse()
    br = "[%s]" % "+".join(regs) if regs else ""
    if not x["seg"]:
        if br and x["off"]:
            br = br[:-1] + "%+dt]" % x["off"]
        s = br or "[%dt]" % x["off"]
    elif br:
        s = rng.choice([s + br, br[:-1] + "+" + s + "]", s + "".join("[%s]" % r for r in regs)])
    else:
        s = rng.choice([s, "[" + s + "]", s])
    ov = x["ov"] + ":" if x["ov"] else ""
    return s, ov


def acc_text(x, rng):
    i = x["ins"]
    if i == "lods":
        reg = "si" if x["use"] == 16 else "esi"
        return "lods byte ptr %s[%s]" % (x["ov"] + ":" if x["ov"] else "", reg)
    s, ov = operand(x, rng)
    p = "byte ptr " + ov + s
    return {"inc": "inc " + p, "ldal": "mov al, " + p, "stal": "mov %s, al" % p, "ldcl": "mov cl, " + p, "imm": "mov %s, 5Ah" % p,
            "lea": "lea %ssi, %s" % ("" if x["use"] == 16 else "e", p), "xlat": "xlat " + ov + s}[i]


def text_of(S, rng, use, uid):
    """lines of a statement, and which of them an error is reported for"""
    op = S["op"]
    if op == "assume":
        return ["assume " + ", ".join("%s:%s" % (r, v) for r, v in S["ps"])], 0
    if op == "nothing":
        return ["assume nothing"], 0
    if op == "std":
        v = S["v"]
        return ["assume %sbx:%s" % ("" if use == 16 else "e", v if v in ("nothing", "error") else "ptr " + v)], 0
    if op == "seg":
        return ["%s segment" % S["n"]], 0
    if op == "ends":
        return ["%s ends" % S["n"]], 0
    if op == "acc":
        return [acc_text(S["x"], rng)], 0
    if op == "incbx":
        return ["inc [%sbx]" % ("" if use == 16 else "e")], 0
    if op == "radix":
        return [".radix %d" % S["r"]], 0
    if op == "num":
        return ["db 10"], 0
    if op in ("cpu", "ins"):
        return [S["t"]], 0
    if op == "atcpu":
        return ["dw @Cpu"], 0
    if op == "list":
        return [(rng.choice([".list"]) if S["on"] else rng.choice([".nolist", ".xlist"]))], 0
    if op == "lmac":
        return [rng.choice({"all": [".listmacroall", ".lall"], "code": [".listmacro", ".xall"], "none": [".nolistmacro", ".sall"]}[S["how"]])], 0
    if op == "lif":
        return [rng.choice([".listif", ".lfcond"] if S["on"] else [".nolistif", ".sfcond"])], 0
    if op == "tif":
        return [".tfcond"], 0
    if op == "lall":
        return [".listall"], 0
    if op == "plain":
        return ["; mark%d" % S["m"]], 0
    if op == "mac":
        return ["shw %dt, %dt" % (S["m"], S["m"] + 1)], 0
    if op == "false":
        return ["if 0", "; mark%d" % S["m"], "endif"], 0
    if op == "field":
        return ["option fieldalign:%dt" % S["a"]], 0
    if op == "palign":
        return ["option procalign:%dt" % S["a"]], 0
    if op == "struct":
        return ["st%d struct" % uid, "f1 db ?", "f2 dq ?", "st%d ends" % uid, "db sizeof st%d" % uid], 4
    if op == "proc":
        return ["pr%d proc" % uid, "db 0C3h", "pr%d endp" % uid], 0
    if op in ("push", "pop"):
        return ["%scontext %s" % (op, (rng.choice([", ", ","])).join(rng.choice([k, k.upper()]) for k in S["ks"]))], 0
    raise KeyError(op)


HEADMAC = ["shw macro x, y", "if y", "endif", "db x - x + 66t", "endm"]


def source(case, rng, skip=()):
    """the module's text; at: statement -> line an error belongs to"""
    h = case["h"]
    use = h["use"]
    L = [".386", "option prologue:none, epilogue:none"] + HEADMAC
    segline = lambda n: "%s segment use%d para public '%s'" % (n, use, "DATA" if n[0] == "D" else "CODE")

    def body(n):
        return [segline(n)] + ["db %dt dup (0CCh)" % 1, "%s db %dt dup (0CCh)" % (SYM[n], h["size"][n] - 1), "%s ends" % n]
    head = ["%s group %s" % (g, ",".join(n for n in ORDER if h["grp"][n] == g)) for g in ("G", "CG") if g in h["grp"].values()]
    for n in ORDER:
        head += body(n) if n[0] == "C" or not h["late"] else [segline(n), n + " ends"]
    at = {}

    def stmts(lo, hi):
        for k in range(lo, hi):
            if k + 1 in skip:
                continue
            t, e = text_of(case["prog"][k], rng, use, k)
            at[k + 1] = len(L) + 1 + e
            L.extend(t)
            if rng.random() < .05:
                L.append("")
    stmts(0, case["pre"])
    L.extend(head)
    stmts(case["pre"], len(case["prog"]))
    L.append(".list")
    if h["late"]:
        for n in ORDER:
            if n[0] == "D":
                L.extend(body(n))
    L.append("end")
    return "\n".join(L) + "\n", at


def image(v, h):
    """expected image, None for bytes that are not specified"""
    img = [None] * v["end"]
    for n in ORDER:
        a = v["at"][n]
        img[a:a + h["size"][n]] = [0xCC] * h["size"][n]
        for k, b in enumerate((v["code"] or {}).get(n, [])):
            img[a + h["size"][n] + k] = b if b >= 0 else None
    return img


MARK = re.compile(r"(?:; mark|\bdb |\bif )(\d{5})")


def listed(lst):
    return {int(m) for m in MARK.findall(lst)}


def wrong_for(mods):
    def wrong(j, r):
        v, h, at, errs, wlst = mods[j]
        if r.rc == "timeout":
            return "no end"
        lines = sorted({m[1] for m in r.errors})
        if errs is not None:
            want = sorted(at[p] for p in errs)
            if v["stop"]:
                lines = [l for l in lines if l <= at[v["stop"]]]
            return None if lines == want else "errors in lines %s, expected %s" % (lines, want)
        if lines:
            return "rejected in lines %s" % lines
        img, out = image(v, h), r.out or b""
        if len(out) != len(img):
            return "image of %d bytes, expected %d: %s" % (len(out), len(img), hexs(out))
        bad = [k for k, b in enumerate(img) if b is not None and out[k] != b]
        if bad:
            a = max(0, bad[0] - 6)
            return "image differs at %d: %s, expected %s" % (bad[0], hexs(out[a:a + 16]), " ".join("??" if b is None else "%02x" % b for b in img[a:a + 16]))
        if wlst:
            got = listed(r.lst or "")
            if set(v["show"]) - got:
                return "not listed: %s" % sorted(set(v["show"]) - got)
            if set(v["hide"]) & got:
                return "listed: %s" % sorted(set(v["hide"]) & got)
    return wrong


def judge_cases(c, cases, verdicts, label, rng, wlst):
    texts, mods, n = [], [], 0
    for cse, v in zip(cases, verdicts):
        errs = v["e1"] or v["e2"]
        wl = wlst and bool(v["show"] or v["hide"])
        if errs:
            c.count("modules with rejected statements")
            t, at = source(cse, rng)
            texts.append(t)
            mods.append((v, cse["h"], at, errs, wl))
        if v["stop"]:
            c.count("modules with a restore of what is not saved")
            continue
        t, at = source(cse, rng, set(v["e1"]) | set(v["e2"]))
        texts.append(t)
        mods.append((v, cse["h"], at, None, wl))
        c.count("modules assembled")
    judge(c, texts, wrong_for(mods), label, want_lst=wlst, opts=("-bin", "-Fl") if wlst else ("-bin",))
    c.traces(len(texts), label)
    return texts


# ---- random programs
def header(rng):
    return {"use": rng.choice([16, 16, 32]), "late": rng.random() < .35, "order": ORDER,
            "grp": dict(rng.choice([{"D1": "G", "D2": "G", "D3": ""}] * 3 + [{"D1": "", "D2": "", "D3": ""}, {"D1": "G", "D2": "", "D3": "G"}, {"D1": "G", "D2": "G", "D3": "G"}]),
                        **rng.choice([{"CS1": "", "CS2": ""}, {"CS1": "CG", "CS2": "CG"}])),
            "size": {n: rng.choice([4, 5, 15, 16, 17, 20, 33]) for n in ORDER}}


def names(h, rng):
    gs = [g for g in set(h["grp"].values()) if g]
    return rng.choice(gs) if gs and rng.random() < .45 else rng.choice(ORDER)


SREGS = ["ds", "es", "ss", "fs", "gs", "cs"]


def gen_assume(h, rng, inseg):
    r = rng.random()
    if r < .06:
        return {"op": "nothing"}
    ps = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        q = rng.random()
        ps.append([rng.choice(SREGS[:4] if rng.random() < .8 else SREGS),
                   "NOTHING" if q < .12 else "ERROR" if q < .19 else rng.choice(SREGS) if q < .23 and inseg else names(h, rng)])
    return {"op": "assume", "ps": ps}


def gen_acc(h, rng):
    use = h["use"]
    i = rng.choice(["inc"] * 4 + ["ldal"] * 3 + ["stal", "ldcl", "ldcl", "imm", "lea", "xlat", "lods"])
    x = {"ins": i, "use": use, "ov": "", "base": "", "idx": "", "sc": 0, "seg": "", "off": 0, "at": 0}
    if i == "lods":
        x["ov"] = rng.choice(SREGS + [""])
        return {"op": "acc", "x": x}
    seg = "" if rng.random() < .15 and i != "xlat" else rng.choice(ORDER if rng.random() < .8 else ORDER[:3])
    r = rng.random()
    if r < .2:
        x["ov"] = rng.choice(SREGS)
    elif r < .3:
        g = h["grp"][seg] if seg else ""
        x["ov"] = rng.choice([n for n in (seg, g) if n]) if seg and rng.random() < .8 else names(h, rng)
    if rng.random() < .45 and i != "xlat":
        if use == 16:
            b, d = rng.choice([("bx", ""), ("bp", ""), ("si", ""), ("di", ""), ("bx", "si"), ("bx", "di"), ("bp", "si"), ("bp", "di"), ("bp", "")])
        else:
            b = rng.choice(["eax", "ebx", "ecx", "edx", "esi", "edi", "ebp", "ebp", "esp", ""])
            d = rng.choice(["", "", "eax", "ecx", "ebp", "esi"]) if b else rng.choice(["eax", "ebp", "edi"])
            if d:
                x["sc"] = rng.choice([1, 2, 3]) if not b or rng.random() < .5 else 0
        x["base"], x["idx"] = b, d
    x["seg"] = seg
    if seg:
        x["at"] = 1
        x["off"] = 1 + rng.choice([0, 0, 0, 1, 2, 200])
    else:
        x["off"] = rng.choice([0, 1, 8, 127, 128, -1, -128, -129, 1000]) if x["base"] else rng.choice([0, 8, 300])
        if not x["base"] and not x["idx"] and x["ov"] not in SREGS:
            x["ov"] = rng.choice(SREGS)
        if x["idx"] and not x["base"]:
            x["off"] = 0
        if use == 16 and not x["base"]:     # a bare number's width follows the default address size
            x["base"], x["off"] = "si", rng.choice([0, 5])
    return {"op": "acc", "x": x}


def gen_set(kind, h, rng, inseg):
    if kind == "assumes":
        if rng.random() < .25:
            return {"op": "std", "v": rng.choice(["byte", "word", "dword", "nothing", "error"] if inseg else ["nothing", "error"])}
        return gen_assume(h, rng, inseg)
    if kind == "radix":
        return {"op": "radix", "r": rng.randint(2, 16)}
    if kind == "cpu":
        t, d = rng.choice(rng.choice([CPUS, CPUS, FPUS, EXTS]))
        return {"op": "cpu", "d": d, "t": t}
    if kind == "listing":
        return rng.choice([{"op": "list", "on": rng.random() < .7}, {"op": "lmac", "how": rng.choice(["all", "code", "none"])},
                           {"op": "lif", "on": rng.random() < .5}, {"op": "tif"}, {"op": "lall"}])
    return {"op": rng.choice(["field", "palign"]), "a": rng.choice([1, 2, 4, 8])} if rng.random() < .9 else {"op": "palign", "a": 16}


def gen_show(kind, h, rng, ids):
    if kind == "assumes":
        return {"op": "incbx"} if rng.random() < .3 else gen_acc(h, rng)
    if kind == "radix":
        return {"op": "num"}
    if kind == "cpu":
        return {"op": "atcpu"} if rng.random() < .5 else ins_op(rng.randrange(len(INS)), h["use"])
    if kind == "listing":
        return {"op": rng.choice(["plain", "mac", "mac", "false"]), "m": next(ids)}
    return {"op": rng.choice(["struct", "proc"])}
