"""structured programs for Hll.tla: seeded programs, their spelling, what user statements do"""
import x86
from x86 import b8

REG = {16: {1: "al bl cl dl ah bh ch dh".split(), 2: "ax bx cx dx si di bp".split()},
       32: {1: "al bl cl dl ah bh ch dh".split(), 2: "ax bx cx dx si di bp".split(), 4: "eax ebx ecx edx esi edi ebp".split()},
       64: {1: "al bl cl dl sil dil r8b r13b".split(), 2: "ax bx cx dx si r9w r14w".split(), 4: "eax ebx ecx edx esi edi ebp r8d r12d r15d".split(),
            8: "rax rbx rcx rdx rsi rdi rbp r8 r10 r11 r13 r15".split()}}
FULL = {16: REG[16][2], 32: REG[32][4], 64: REG[64][8] + ["r9", "r12", "r14"]}
TYPE = {(1, 0): "byte", (2, 0): "word", (4, 0): "dword", (8, 0): "qword", (1, 1): "sbyte", (2, 1): "sword", (4, 1): "sdword", (8, 1): "sqword"}
FLAGS = "ZERO CARRY SIGN PARITY OVERFLOW".split()
NONE = {"k": "none"}


def sx(v, n):
    v &= (1 << (8 * n)) - 1
    return v - (1 << (8 * n)) if v >> (8 * n - 1) else v


class Gen:
    def __init__(self, rng, mode, opt=()):
        self.r, self.mode, self.opt = rng, mode, set(opt)
        self.sizes = [1, 2] if mode == 16 else [1, 2, 4] if mode == 32 else [1, 2, 4, 8]
        self.vars, self.consts, self.id = [], {n: {0, 1, -1} for n in (1, 2, 4, 8)}, 31
        for n in self.sizes:
            for sg in (0, 1):
                self.vars.append({"n": "v%s%d" % ("us"[sg], n), "sz": n, "sg": sg})
        self.rng_budget = rng.randint(4, 22)
        self.nacc = 0

    def reg(self, n):
        return {"k": "r", "n": self.r.choice(REG[self.mode][n]), "sz": n, "sg": 0}

    def var(self, n):
        v = self.r.choice([v for v in self.vars if v["sz"] == n])
        return {"k": "m", "var": v["n"], "sz": n, "sg": v["sg"]}

    def imm(self, n, lim=None):
        r = self.r
        v = r.choice([0, 1, 2, 3, 5, 10, 100, 127, 128, 200, 255, -1, -2, -128, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1, r.randrange(1 << (8 * n))])
        v = sx(v, 4 if n == 8 else n)
        self.consts[n] |= {v, v - 1, v + 1}
        return {"k": "i", "v": b8(v), "sz": n, "sg": 0, "x": v}

    def term(self):
        r = self.r
        n = r.choice(self.sizes)
        t = r.random()
        if t < .05:
            return {"k": "fl", "n": r.choice(FLAGS)}
        if t < .16:
            return {"k": "const", "v": r.choice([0, 1, 1, 7])}
        if t < .3:
            return {"k": "val", "a": r.choice([self.reg, self.var])(n)}
        a = r.choice([self.reg, self.reg, self.var])(n)
        if t < .42:
            return {"k": "bit", "a": a, "b": r.choice([self.imm, self.imm, self.reg] + ([self.var] if a["k"] == "r" else []))(n)}
        b = r.choice([self.imm, self.imm, self.reg] + ([self.var] if a["k"] == "r" else []))(n)
        return {"k": "cmp", "op": r.choice(["==", "!=", "<", ">", "<=", ">="]), "a": a, "b": b, "sg": bool(a["sg"] or b["sg"])}

    def cond(self, depth=None):
        r = self.r
        d = r.choice([0, 0, 1, 1, 2, 2, 3]) if depth is None else depth
        if d == 0 or r.random() < .15:
            c = self.term()
            return {"k": "not", "x": c} if r.random() < .2 else c
        c = {"k": r.choice(["and", "or"]), "x": self.cond(d - 1), "y": self.cond(d - 1)}
        return {"k": "not", "x": c} if r.random() < .15 else c

    def mark(self):
        self.id += 1
        if self.id > 126:
            self.id = 32
        return {"op": "u", "id": self.id}

    def block(self, depth, loops, sw):
        r = self.r
        out = [self.mark()] if loops or r.random() < .8 else []
        for _ in range(r.choice([0, 1, 1, 2])):
            self.rng_budget -= 1
            if self.rng_budget < 0 or depth > 4:
                break
            out.append(self.stmt(depth, loops, sw))
            if r.random() < .6:
                out.append(self.mark())
        return out

    def optc(self, p):
        return self.cond() if self.r.random() < p else NONE

    def asg(self):
        r = self.r
        n = r.choice([x for x in self.sizes if x > 1])
        a = r.choice([self.reg, self.reg, self.var])(n)
        op = r.choice(["=", "=", "++", "--", "+=", "-=", "&=", "|=", "^=", "<<=", ">>="])
        if op in ("++", "--"):
            b = a
        elif op in ("<<=", ">>="):
            v = r.randint(1, 7)
            b = {"k": "i", "v": b8(v), "sz": n, "sg": 0, "x": v}
        else:
            b = r.choice([self.imm] + ([self.reg] if True else []))(n)
        return {"a": a, "op": op, "b": b}

    def switch(self, depth, loops):
        r = self.r
        n = r.choice([4, 4, 4, 8, 1, 2]) if self.mode == 64 else r.choice([4, 4, 4, 1, 2])
        # (signed variables and the registers that came with 64-bit mode are rejected unless they have 64 bits)
        a = r.choice([self.reg, self.var])(n)
        while a["sg"] or (a["k"] == "r" and n < 8 and (a["n"][0] == "r" or a["n"] in ("sil", "dil"))):
            a = r.choice([self.reg, self.var])(n)
        k = r.choice([1, 2, 3, 4, 4, 5, 6, 8, 12, 20, 40] + ([60, 90, 160] if r.random() < .3 else []))
        kind = r.choice(["dense", "dense", "gaps", "wide", "huge"])
        base = r.choice([0, 1, 10, -3, -20, 100, r.randrange(-1000, 1000)]) if n > 1 else r.choice([0, 1, 10])
        span = {"dense": k + r.randint(0, 2), "gaps": k * 4 + 3, "wide": k * 30 + 300, "huge": 1 << 30}[kind]
        if n == 1:
            k = min(k, 12)
            span = min(span, 100)
        if n == 2:
            span = min(span, 20000)
            base = abs(base)
        vals = set()
        while len(vals) < k:
            vals.add(base + r.randrange(span))
        vals = list(vals)
        r.shuffle(vals)
        self.consts[n] |= set(vals) | {v + 1 for v in vals} | {v - 1 for v in vals}
        cases = []
        self.hot = getattr(self, "hot", {})
        self.hot.setdefault(a.get("var") or a["n"], []).extend(vals)
        while vals:
            q = [vals.pop()]
            while vals and r.random() < .2 and "multi" in self.opt:
                q.append(vals.pop())
            body = [self.mark()] if k > 12 else self.block(depth + 1, loops, True) or [self.mark()]
            cases.append({"vs": [b8(v) for v in q], "xs": q, "b": body, "def": False})
        if r.random() < .6:
            if "c" not in self.opt and r.random() < .4:
                for q in r.sample(cases[:-1], min(len(cases) - 1, r.randint(1, 3))):
                    q["b"] = []
            # (a case without statements in front of .DEFAULT isn't meant)
            at = r.choice([0] + [j for j in range(1, len(cases) + 1) if cases[j - 1]["b"]] + [len(cases)])
            cases.insert(at, {"vs": [], "xs": [], "b": self.block(depth + 1, loops, True) or [self.mark()], "def": True})
        return {"op": "switch", "a": a, "cases": cases, "style": "c" if "c" in self.opt else "a"}

    def stmt(self, depth, loops, sw):
        r = self.r
        kinds = ["if"] * 4 + ["while"] * 2 + ["repeat"] * 2 + ["cxz", "for"]
        if self.mode != 16 and "switch" in self.opt:
            kinds += ["switch"] * 3
        if loops or sw:
            kinds += ["brk"] * 2
        if loops:
            kinds += ["cont"] * 2
        k = r.choice(kinds)
        if k == "if":
            arms = [{"c": self.cond(), "b": self.block(depth + 1, loops, sw)} for _ in range(r.choice([1, 1, 2, 3]))]
            return {"op": "if", "arms": arms, "els": self.block(depth + 1, loops, sw) if r.random() < .5 else []}
        if k == "while":
            return {"op": k, "c": self.cond(), "b": self.block(depth + 1, True, False)}
        if k == "repeat":
            return {"op": k, "c": self.optc(.9), "b": self.block(depth + 1, True, False)}
        if k == "cxz":
            c = NONE
            if r.random() < .5:
                c = self.term()
                while c["k"] != "cmp" or c["op"] not in ("==", "!="):
                    c = self.term()
            return {"op": k, "c": c, "b": [self.mark() for _ in range(r.randint(1, 2))] + ([{"op": r.choice(["brk", "cont"]), "c": self.cond(0)}, self.mark()] if r.random() < .5 else [])}
        if k == "for":
            return {"op": k, "init": [self.asg() for _ in range(r.choice([0, 1, 1, 2]))], "c": self.optc(.85), "inc": [self.asg() for _ in range(r.choice([0, 1, 1, 2]))],
                    "b": self.block(depth + 1, True, False)}
        if k == "switch":
            return self.switch(depth, loops)
        return {"op": k, "c": self.optc(.7)}

    def program(self):
        out = [self.mark()]
        while self.rng_budget > 0:
            self.rng_budget -= 1
            out.append(self.stmt(0, False, False))
            out.append(self.mark())
        return out + [{"op": "u", "id": 127}]

    # what user statements do
    def value(self, n):
        r = self.r
        v = r.choice(sorted(self.consts[n])) if r.random() < .8 else r.randrange(1 << (8 * n))
        return v & ((1 << (8 * n)) - 1)

    def action(self, many=False):
        r = self.r
        e = {"r": [], "w": [], "f": [r.randint(0, 1) for _ in range(5)]}
        # the accumulator always; the other registers sometimes
        for q in FULL[self.mode] if many else [FULL[self.mode][0]] + r.sample(FULL[self.mode], r.randint(0, 4)):
            n = {16: 2, 32: 4, 64: 8}[self.mode]
            v = self.value(n)
            if r.random() < .5:
                s = r.choice([x for x in self.sizes])
                v = (v & ~((1 << (8 * s)) - 1) | self.value(s)) if r.random() < .5 else self.value(s)
            e["r"].append([q, list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))])
        hot = getattr(self, "hot", {})
        for q in hot:
            if r.random() < .7 and q[0] != "v":
                n = [n for n in self.sizes if q in REG[self.mode][n]][0]
                e["r"].append([q, list(b8(r.choice(hot[q]) + r.choice([0, 0, 0, 1, -1])))[:n]])
        for v in self.vars if many else r.sample(self.vars, r.randint(0, 3)):
            e["w"].append([v["n"], list(self.value(v["sz"]).to_bytes(v["sz"], "little"))])
        for q in hot:
            if r.random() < .7 and q[0] == "v":
                n = int(q[-1])
                e["w"].append([q, list(b8(r.choice(hot[q]) + r.choice([0, 0, 0, 1, -1])))[:n]])
        if r.random() < .4:        # loops over cx end
            n = {16: 2, 32: 4, 64: 8}[self.mode]
            e["r"].append([{16: "cx", 32: "ecx", 64: "rcx"}[self.mode], list(r.randint(1, 3).to_bytes(n, "little"))])
        return e


# ---- spelling
def num(x, n, rng=None):
    return str(x)


def opnd(a):
    if a["k"] == "r":
        return a["n"]
    if a["k"] == "m":
        return a["var"]
    return num(a["x"], a["sz"])


PREC = {"or": 1, "and": 2}


def ctext(c, rng, up=0):
    k = c["k"]
    if k == "fl":
        t = c["n"] + "?"
    elif k == "const":
        t = str(c["v"])
    elif k == "val":
        t = opnd(c["a"])
    elif k == "bit":
        t = "%s & %s" % (opnd(c["a"]), opnd(c["b"]))
    elif k == "cmp":
        t = "%s %s %s" % (opnd(c["a"]), c["op"], opnd(c["b"]))
        if rng.random() < .15:
            t = "(" + t + ")"
        elif rng.random() < .2:
            t = t.replace(" ", "")
        return t
    elif k == "not":
        return "!(" + ctext(c["x"], rng) + ")" if c["x"]["k"] in ("and", "or", "cmp", "bit") or rng.random() < .3 else "!" + ctext(c["x"], rng)
    else:
        p = PREC[k]
        t = "%s %s %s" % (ctext(c["x"], rng, p), {"and": "&&", "or": "||"}[k], ctext(c["y"], rng, p))
        return "(" + t + ")" if p < up or rng.random() < .25 else t
    return "(" + t + ")" if rng.random() < .1 else t


def cif(c, rng):
    return " .if " + ctext(c, rng) if c["k"] != "none" else ""


def asgs(qs, rng):
    out = []
    for q in qs:
        a = opnd(q["a"])
        out.append(a + q["op"] if q["op"] in ("++", "--") else "%s%s%s" % (a, q["op"], opnd(q["b"])) if rng.random() < .5 else "%s %s %s" % (a, q["op"], opnd(q["b"])))
    return ", ".join(out)


def lines(b, rng, ind=1):
    L, p = [], "\t" * ind
    for S in b:
        o = S["op"]
        if o == "u":
            L.append(p + "int %d" % S["id"])
        elif o == "if":
            for j, a in enumerate(S["arms"]):
                L.append(p + (".if " if j == 0 else ".elseif ") + ctext(a["c"], rng))
                L += lines(a["b"], rng, ind + 1)
            if S["els"]:
                L.append(p + ".else")
                L += lines(S["els"], rng, ind + 1)
            L.append(p + ".endif")
        elif o == "while":
            L += [p + ".while " + ctext(S["c"], rng)] + lines(S["b"], rng, ind + 1) + [p + ".endw"]
        elif o == "repeat":
            L += [p + ".repeat"] + lines(S["b"], rng, ind + 1) + [p + (".until " + ctext(S["c"], rng) if S["c"]["k"] != "none" else ".until 0")]
        elif o == "cxz":
            L += [p + ".repeat"] + lines(S["b"], rng, ind + 1) + [p + ".untilcxz" + (" " + ctext(S["c"], rng) if S["c"]["k"] != "none" else "")]
        elif o == "for":
            L += [p + ".for (%s : %s : %s)" % (asgs(S["init"], rng), ctext(S["c"], rng) if S["c"]["k"] != "none" else "", asgs(S["inc"], rng))] + lines(S["b"], rng, ind + 1) + [p + ".endfor"]
        elif o == "brk":
            L.append(p + ".break" + cif(S["c"], rng))
        elif o == "cont":
            L.append(p + ".continue" + cif(S["c"], rng))
        elif o == "switch":
            L.append(p + ".switch " + opnd(S["a"]))
            for q in S["cases"]:
                L.append(p + (".default" if q["def"] else ".case " + ", ".join(str(x) for x in q["xs"])))
                L += lines(q["b"], rng, ind + 1)
            L.append(p + rng.choice([".endsw", ".endswitch"]))
    return L


SIG = bytes([0x5A, 0xA5, 0xC3, 0x3C, 0x77, 0x88, 0x19, 0x91])


def source(g, prog, rng):
    data = ["\tdb " + ",".join(map(str, SIG))] + ["%s %s 0" % (v["n"], TYPE[v["sz"], v["sg"]]) for v in g.vars]
    body = lines(prog, rng)
    opt = ["option switchstyle:cstyle"] if "c" in g.opt else []
    if g.mode == 16:
        return "\n".join([".386", "T1 segment use16 'CODE'", "assume cs:T1, ds:T1, es:T1, ss:T1", "start:"] + body + data + ["T1 ends", "end"]) + "\n"
    return "\n".join([".686" if g.mode == 32 else ".x64", ".model flat"] + opt + [".data"] + data + [".code", "start:"] + body + ["end"]) + "\n"


def place(g, image):
    """-> addresses of the variables"""
    at = image.rfind(SIG) + len(SIG)
    out = {}
    for v in g.vars:
        out[v["n"]] = at
        at += v["sz"]
    return out


def subst(x, adr):
    """variables' addresses into programs and actions"""
    if isinstance(x, dict):
        d = {k: subst(v, adr) for k, v in x.items() if k != "xs" and not (k == "x" and isinstance(v, int))}
        if d.get("k") == "m" and "var" in d:
            d["a"] = adr[d["var"]]
        return d
    if isinstance(x, list):
        return [subst(y, adr) for y in x]
    return x


def case(g, prog, env, start, image):
    adr = place(g, image)
    acts = lambda e: {"r": e["r"], "w": [[adr[n], v] for n, v in e["w"]], "f": e["f"]}
    return {"mode": g.mode, "code": list(image) + [0x90] * 16, "len": len(image), "ip": 0, "vars": [[adr[v["n"]], v["sz"]] for v in g.vars],
            "prog": subst(prog, adr), "env": [acts(e) for e in env], "start": acts(start)}
