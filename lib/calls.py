"""modules of procedures that INVOKE each other, for Calls.tla"""
from x86 import b8
from hll import TYPE, SIG, sx, subst

REGS = {16: {1: "al cl dl bl ah ch dh bh".split(), 2: "ax cx dx bx si di".split()},
        32: {1: "al cl dl bl ah ch dh bh".split(), 2: "ax cx dx bx si di".split(), 4: "eax ecx edx ebx esi edi".split()},
        64: {1: "al cl dl bl sil r8b r9b r12b".split(), 2: "ax cx dx bx si r8w r10w r13w".split(), 4: "eax ecx edx ebx esi edi r8d r9d r10d r11d r14d".split(),
             8: "rax rcx rdx rbx rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()}}
FULL = {16: REGS[16][2], 32: REGS[32][4], 64: REGS[64][8]}
NUM = {"a": 1, "c": 2, "d": 3, "b": 4, "si": 7, "di": 8}


def rnum(n):
    """number of a register in the model's register file"""
    for w in (64, 32, 16):
        t = {64: "rax rcx rdx rbx rsp rbp rsi rdi".split() + ["r%d" % k for k in range(8, 16)], 32: "eax ecx edx ebx esp ebp esi edi".split() + ["r%dd" % k for k in range(8, 16)],
             16: "ax cx dx bx sp bp si di".split() + ["r%dw" % k for k in range(8, 16)]}[w]
        if n in t:
            return t.index(n) + 1
    low = "al cl dl bl ah ch dh bh".split()
    if n in low:
        return low.index(n) % 4 + 1
    return {"sil": 7, "dil": 8}.get(n) or int(n[1:-1]) + 1


# convention: modes, registers preserved, those whose USES the caller sees, parameter registers, stack above that a call may use
CONV = {}
for l in "c stdcall syscall pascal basic fortran".split():
    CONV[l] = {"modes": [16, 32], "pres": {16: [6, 7, 8], 32: [4, 6, 7, 8]}, "ck": {16: [2, 4], 32: [2]}, "regs": {16: [], 32: []}}
CONV["fastcall"] = {"modes": [32], "pres": {32: [4, 6, 7, 8]}, "ck": {32: []}, "regs": {32: ["ecx", "edx"]}}
CONV["win64"] = {"modes": [64], "pres": {64: [4, 6, 7, 8, 13, 14, 15, 16]}, "ck": {64: []}, "regs": {64: ["rcx", "rdx", "r8", "r9"]}}
CONV["systemv"] = {"modes": [64], "pres": {64: [4, 6, 13, 14, 15, 16]}, "ck": {64: []}, "regs": {64: ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]}}


class Gen:
    def __init__(self, rng, mode, conv, opts=(), small=False):
        self.r, self.mode, self.opts = rng, mode, list(opts)
        self.w = mode // 8
        self.conv = conv
        self.sizes = [1, 2] if mode == 16 else [1, 2, 4] if mode == 32 else [1, 2, 4, 8]
        self.id = 3
        self.vars = []
        for n in self.sizes + ([4] if mode == 16 else [8] if mode == 32 else []):
            for sg in (0, 1):
                self.vars.append({"n": "v%s%d" % ("us"[sg], n), "sz": n, "sg": sg})
        self.small = small
        self.force = {}
        self.load = {}
        self.cpu = rng.choice([".8086", ".8086", ".8086", ".186", ".286", ".386", ".686"])

    def nid(self):
        self.id += 1
        return self.id

    # ---- procedures
    def shape(self, n):
        r = self.r
        cv = self.conv if isinstance(self.conv, str) else r.choice(self.conv)
        np = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        psz = self.sizes + ([4, 4] if self.mode == 16 and r.random() < .5 else []) + ([8] if self.mode == 32 and cv not in ("fastcall",) and r.random() < .3 else [])
        ps = []
        for q in range(np):
            sz = r.choice(psz + [self.w] * 2)
            ps.append({"n": "p%d_%d" % (n, q), "sz": sz, "sg": int(r.random() < .35)})
        ls = []
        for q in range(r.choice([0, 0, 1, 2, 3, 4])):
            sz = r.choice(self.sizes)
            ls.append({"n": "l%d_%d" % (n, q), "sz": sz, "sg": int(r.random() < .3), "cnt": r.choice([1, 1, 1, 2, 3, 5, 9])})
        C = CONV[cv]
        pool = [x for x in FULL[self.mode] if rnum(x) != 1]
        uses = r.sample(pool, r.choice([0, 0, 1, 2, 3, min(5, len(pool))]))
        return {"n": "P%d" % n, "cv": cv, "params": ps, "locals": ls, "uses": uses, "k": n}

    def args(self, P, F, main):
        """arguments of a call of P out of F"""
        r, out = self.r, []
        C = CONV[P["cv"]]
        inreg = 0
        self.based = {}
        self.ax = r.random() < .35      # arguments in the register that INVOKE itself uses
        for j, p in enumerate(P["params"]):
            n = p["sz"]
            p["at"] = j
            p["reg"] = P["cv"] == "fastcall" and n <= 4 and inreg < 2
            inreg += p["reg"]
            ks = ["i", "i", "r", "r", "m", "mr"] + (["par"] * 2 if F["params"] and F["stackpar"] else []) + (["loc"] * 2 if F["locals"] else []) + (["ad", "adl"] if n == self.w else [])
            if n > self.w:
                ks = ["m", "mr", "i"] + (["rr"] if self.mode == 32 else []) + (["m", "m", "r", "r", "par", "loc"] if self.mode == 16 and n == 4 else [])
            force = self.force.get(P["n"])
            for _ in range(30):
                k = force[1] if force and F["k"] and force[0] == j else r.choice(ks + ["m", "mr", "r"] * 2 if self.ax and n <= self.w else ks)
                a = self.arg(k, p, F, P)
                if a:
                    break
            else:
                a = self.arg("i", p, F, P)
            out.append(a)
        return out

    def arg(self, k, p, F, P):
        r, n = self.r, p["sz"]
        if k == "i":
            m = min(n, 4)
            v = r.choice([0, 1, 5, 100, 127, -1, -128, r.randrange(1 << (8 * m - 1)), (1 << (8 * m - 1)) - 1, -(1 << (8 * m - 1)), (1 << (8 * m)) - 1 if n < 8 else 7])
            if n == 8 and self.mode == 64 and r.random() < .3:
                v = r.randrange(1 << 64) - (1 << 63)
            return {"k": "i", "v": list((v & (1 << 64) - 1).to_bytes(8, "little")), "x": v}
        if k == "r":
            s = n if r.random() < .7 or p["reg"] or self.mode == 64 else r.choice([x for x in self.sizes if x <= n])
            if s > self.w:
                s = self.w
            if F["k"] and F["cv"] == "fastcall" and False:
                return None
            return {"k": "r", "n": r.choice((["al", "ah"][:1 + (self.mode < 64)] if s == 1 else [{2: "ax", 4: "eax", 8: "rax"}[s]]) if self.ax and r.random() < .7 else REGS[self.mode][s])}
        if k == "rr":
            a, b = r.sample([x for x in REGS[32][4] if x not in ("ecx",)], 2)
            return {"k": "rr", "n": a, "lo": b}
        if k in ("m", "mr"):
            v = r.choice([v for v in self.vars if v["sz"] == n or (v["sz"] < n <= (8 if self.conv == "win64" and (p["at"] < 4 or v["sz"] < 4 or v["sg"]) else 4) and not p["reg"] and self.conv != "systemv" and r.random() < .4)] or [None])
            if not v:
                return None
            a = {"k": "m", "var": v["n"], "sz": v["sz"], "sg": v["sg"]}
            if k == "mr":   # addressed by a register, which the stop in front of the call loads
                ok = [x for x in FULL[self.mode] if (self.mode > 16 or x in ("bx", "si", "di")) and (not F["k"] or x in F["uses"] or rnum(x) not in CONV[F["cv"]]["pres"][self.mode])
                      and x not in self.based]
                if not ok:
                    return None
                b = r.choice(ok)
                if self.ax and self.mode > 16 and r.random() < .6:
                    b = {32: "eax", 64: "rax"}[self.mode]
                    if b not in ok:
                        return None
                d = r.choice([0, 0, 1, 4, -3, 200])
                self.based[b] = (v["n"], d)
                a["x"] = "%s ptr [%s%s]" % (TYPE[v["sz"], v["sg"]], b, "%+d" % d if d else "")
            return a
        if k == "ad":
            return {"k": "ad", "var": r.choice(self.vars)["n"], "m": True, "how": "addr" if self.mode == 64 else r.choice(["addr", "offset"])}
        if k == "par":
            js = [j for j, q in enumerate(F["params"]) if q["sz"] == n or (q["sz"] < n <= 4 and not p["reg"] and self.conv != "systemv" and r.random() < .3)]
            if not js:
                return None
            j = r.choice(js)
            return {"k": "par", "j": j + 1, "n": F["params"][j]["n"], "sg": F["params"][j]["sg"]}
        if k == "loc":
            js = [j for j, q in enumerate(F["locals"]) if q["sz"] == n or (q["sz"] < n <= 4 and not p["reg"] and self.conv != "systemv" and r.random() < .3)]
            if not js:
                return None
            j = r.choice(js)
            l = F["locals"][j]
            e = r.randrange(l["cnt"])
            return {"k": "loc", "j": j + 1, "e": e + 1, "n": l["n"] + ("[%d]" % (e * l["sz"]) if e else ""), "sg": l["sg"]}
        js = range(len(F["locals"]))
        if not js:
            return None
        j = r.choice(list(js))
        return {"k": "adl", "j": j + 1, "n": F["locals"][j]["n"]}

    def body(self, P, procs, depth):
        """statements of a procedure"""
        r, out = self.r, []
        C = CONV[P["cv"]]
        regpar = bool(C["regs"][self.mode]) and P["cv"] != "win64"
        P["stackpar"] = not regpar
        if r.random() < .5 and not regpar:
            out.append({"op": "mark", "id": self.nid()})

        def gets(w, all=True):
            L = P["params"] if w == "p" else P["locals"]
            for j, q in enumerate(L):
                if not all and r.random() < .5:
                    continue
                e = r.randrange(q.get("cnt", 1))
                parts = [(0, q["sz"])] if q["sz"] <= self.w else [(x, self.w) for x in range(0, q["sz"], self.w)]
                for at, sz in parts:
                    out.append({"op": "get", "w": w, "j": j + 1, "e": e + 1, "at": at, "sz": sz, "n": q["n"], "off": e * q["sz"] + at, "id": self.nid(), "psz": q["sz"]})
        gets("p")
        if regpar:
            P["regdead"] = len(out)
        for j, q in enumerate(P["locals"]):
            out.append({"op": "adr", "j": j + 1, "n": q["n"], "id": self.nid()})
        for j, q in enumerate(P["locals"]):
            for e in range(q["cnt"]):
                v = r.randrange(1 << (8 * min(q["sz"], 4)))
                v = sx(v, min(q["sz"], 4))
                out.append({"op": "put", "w": "l", "j": j + 1, "e": e + 1, "v": list((v & (1 << 64) - 1).to_bytes(8, "little"))[:q["sz"]], "x": v, "n": q["n"], "off": e * q["sz"], "sz": q["sz"]})
        if P["params"] and not regpar and r.random() < .6:
            j = r.randrange(len(P["params"]))
            q = P["params"][j]
            if q["sz"] <= self.w:
                v = sx(r.randrange(1 << (8 * min(q["sz"], 4))), min(q["sz"], 4))
                out.append({"op": "put", "w": "p", "j": j + 1, "e": 1, "v": list((v & (1 << 64) - 1).to_bytes(8, "little"))[:q["sz"]], "x": v, "n": q["n"], "off": 0, "sz": q["sz"]})
        out.append({"op": "mark", "id": self.nid()})
        if not regpar:
            gets("p", False)
        gets("l", False)
        callees = [x for x in procs if x["k"] > P["k"]]
        for _ in range(r.choice([0, 1, 1, 2]) if P["k"] and not self.force else r.choice([1, 2, 3]) if not self.force else 1):
            if callees and self.id < 200:
                q = r.choice(callees)
                out.append({"op": "call", "n": q["k"] + 1, "name": q["n"], "args": self.args(q, P, not P["k"]), "id": self.nid(), "back": self.nid()})
                self.load[out[-1]["id"]] = self.based
                gets("l", False)
                if not regpar:
                    gets("p", False)
        if r.random() < .6:
            out.append({"op": "mark", "id": self.nid()})
        P["body"] = out

    def module(self, procs=None):
        r = self.r
        n = len(procs) if procs else r.randint(1, 3)
        main = {"n": "main", "cv": self.conv if isinstance(self.conv, str) else r.choice(self.conv), "params": [], "locals": [], "uses": [], "k": 0}
        if self.conv in ("win64", "systemv"):
            main["cv"] = self.conv
        if r.random() < .4:
            main["locals"] = self.shape(0)["locals"]
        self.procs = [main] + (procs or [self.shape(k) for k in range(1, n + 1)])
        for P in reversed(self.procs):
            self.body(P, self.procs, 0)
        self.order = list(range(1, n + 1))
        r.shuffle(self.order)
        self.proto = r.random() < .5
        if not self.proto:
            self.order.sort(reverse=True)
        # what stops do to registers
        self.env = {}
        for P in self.procs:
            C = CONV[P["cv"]]
            ok = [x for x in FULL[self.mode] if not P["k"] or x in P["uses"] or rnum(x) not in C["pres"][self.mode]]
            pr = C["regs"][self.mode] if P["cv"] != "win64" else []
            for q, S in enumerate(P["body"]):
                dead = q >= P.get("regdead", 0) - 1
                for key in ("id", "back"):
                    if key in S:
                        self.env[S[key]] = self.action([x for x in ok if dead or x not in pr], S["op"] != "get" or r.random() < .2)
                        if key == "id" and self.load.get(S[key]):
                            self.env[S[key]] = [x for x in self.env[S[key]] if x[0] not in self.load[S[key]]] + [[x, v] for x, v in self.load[S[key]].items()]
        self.start = self.action(FULL[self.mode], True)
        return self

    def action(self, regs, many):
        r = self.r
        out = []
        for x in regs:
            if many or r.random() < .3:
                v = r.randrange(1 << (8 * self.w))
                out.append([x, list(v.to_bytes(self.w, "little"))])
        return out

    # ---- spelling
    def argtext(self, a, p):
        k = a["k"]
        if k == "i":
            return str(a["x"])
        if k == "r":
            return a["n"]
        if k == "rr":
            return a["n"] + "::" + a["lo"]
        if k == "m":
            return a.get("x") or a["var"]
        if k == "ad":
            return a["how"] + " " + a["var"]
        if k == "adl":
            return "addr " + a["n"]
        return a["n"]

    def typ(self, q):
        return TYPE[q["sz"], q["sg"]]

    def lines(self, P):
        w = self.w
        acc = {1: "al", 2: "ax", 4: "eax", 8: "rax"}
        pt = {1: "byte", 2: "word", 4: "dword", 8: "qword"}
        L = []
        for S in P["body"]:
            if S["op"] == "mark":
                L.append("int %d" % S["id"])
            elif S["op"] == "get":
                cast = "" if S["sz"] == S["psz"] else pt[S["sz"]] + " ptr "
                L += ["mov %s, %s%s%s" % (acc[S["sz"]], cast, S["n"], "[%d]" % S["off"] if S["off"] else ""), "int %d" % S["id"]]
            elif S["op"] == "adr":
                L += ["lea %s, %s" % (acc[w], S["n"]), "int %d" % S["id"]]
            elif S["op"] == "put":
                L.append("mov %s%s, %d" % (S["n"], "[%d]" % S["off"] if S["off"] else "", S["x"]))
            else:
                q = self.procs[S["n"] - 1]
                L += ["int %d" % S["id"], "invoke " + ", ".join([S["name"]] + [self.argtext(a, p) for a, p in zip(S["args"], q["params"])]), "int %d" % S["back"]]
        return L

    def proc(self, P, lang):
        t = P["n"] + " proc" + (" " + lang(P) if lang(P) else "") + (" uses " + " ".join(P["uses"]) if P["uses"] else "")
        if P["params"]:
            t += " " + ", ".join("%s:%s" % (p["n"], self.typ(p)) for p in P["params"])
        L = [t]
        if P["locals"]:
            one = ["%s%s:%s" % (l["n"], "[%d]" % l["cnt"] if l["cnt"] > 1 else "", self.typ(l)) for l in P["locals"]]
            if self.r.random() < .5:
                L.append("local " + ", ".join(one))
            else:
                L += ["local " + x for x in one]
        L += ["\t" + x for x in self.lines(P)]
        return L + ["\tret", P["n"] + " endp"]

    def source(self):
        lang = (lambda P: "") if self.mode == 64 else (lambda P: P["cv"])
        data = ["\tdb " + ",".join(map(str, SIG))] + ["%s %s %d" % (v["n"], self.vartype(v), v["x"]) for v in self.vars]
        main = self.procs[0]
        if self.mode == 64:
            mt = ["main proc"] + self.proc(main, lang)[1:-2] + ["\tint 255", "\tret", "main endp"]
        else:
            t = self.proc(main, lang)
            mt = ["main proc " + main["cv"]] + t[1:-2] + ["\tint 255", "\tret", "main endp"]
        protos = []
        if self.proto:
            for P in self.procs[1:]:
                protos.append("%s proto %s %s" % (P["n"], lang(P), ", ".join(":" + self.typ(p) for p in P["params"])))
        code = [x for k in self.order for x in self.proc(self.procs[k], lang)]
        if self.proto and self.r.random() < .5:
            code = mt + code
        else:
            code = code + mt
        if self.mode == 16:
            head = [self.cpu, "T1 segment use16 'CODE'", "assume cs:T1, ds:T1, es:T1, ss:T1", "\tjmp main"]
            return "\n".join(head + protos + code + data + ["T1 ends", "end"]) + "\n"
        head = {32: [".686", ".model flat"], 64: [".x64", ".model flat, " + ("systemv" if self.conv == "systemv" else "fastcall")]}[self.mode]
        return "\n".join(head + self.opts + [".data"] + data + [".code", "\tjmp main"] + protos + code + ["end"]) + "\n"

    def vartype(self, v):
        return TYPE.get((v["sz"], v["sg"]))

    def setup(self):
        for v in self.vars:
            v["x"] = sx(self.r.randrange(1 << (8 * v["sz"])), v["sz"])
        return self


def enumerated(rng, mode, conv, opts, sizes=None):
    """one call per parameter size and form of the argument, alone, and behind and before another argument"""
    out = []
    g0 = Gen(rng, mode, conv, opts)
    for sz in g0.sizes + ([8] if mode == 32 and conv != "fastcall" else []) + ([4] if mode == 16 else []):
        for sg in (0, 1):
            for kind in ["i", "r", "m", "mr", "par", "loc"] + (["ad", "adl"] if sz == g0.w else []) + (["rr"] if mode == 32 and sz == 8 else []):
                for place in (0, 1, 2, 3) if conv in ("win64", "systemv") else (0, 1, 2):
                    g = Gen(rng, mode, conv, opts).setup()
                    other = {"sz": rng.choice(g.sizes), "sg": rng.randint(0, 1)}
                    ps = [{"sz": sz, "sg": sg}]
                    if place == 3:
                        ps = [dict(other) for _ in range(5 if conv == "win64" else 7)] + ps
                        if rng.random() < .5:
                            ps.append(dict(other))
                    elif place:
                        ps.insert(place - 1, other)
                    P2 = {"n": "P2", "cv": conv, "params": [dict(q, n="p2_%d" % j) for j, q in enumerate(ps)], "uses": rng.sample([x for x in FULL[mode] if rnum(x) != 1], rng.choice([0, 1, 2])),
                          "locals": [{"n": "l2_0", "sz": g.w, "sg": 0, "cnt": 1}] if rng.random() < .6 else [], "k": 2}
                    P1 = {"n": "P1", "cv": conv, "params": [{"n": "p1_0", "sz": min(sz, g.w), "sg": sg}], "uses": [], "locals": [{"n": "l1_0", "sz": min(sz, g.w), "sg": sg, "cnt": 2}], "k": 1}
                    g.force = {"P2": ({0: 0, 1: 1, 2: 0, 3: 5 if conv == "win64" else 7}[place], kind)}
                    if kind in ("par", "loc") and sz > g.w:
                        continue
                    if kind == "r" and sz > g.w:
                        continue
                    if kind == "par" and conv in ("fastcall", "systemv"):
                        continue
                    out.append(g.module([P1, P2]))
    return out


def case(g, image):
    adr, at = {}, image.rfind(SIG) + len(SIG)
    for v in g.vars:
        adr[v["n"]] = at
        at += v["sz"]
    procs = []
    for P in g.procs:
        C = CONV[P["cv"]]
        body = [{k: v for k, v in S.items() if k not in ("x", "off", "name", "psz")} for S in P["body"]]
        for S in body:
            if S["op"] == "call":
                S["args"] = [{k: v for k, v in a.items() if k not in ("x", "how")} for a in S["args"]]
                for a in S["args"]:
                    if a["k"] in ("m", "ad"):
                        a["a"] = adr[a.pop("var")]
                    if a["k"] == "r":
                        pass
        procs.append({"params": [{"n": p["n"], "sz": p["sz"], "sg": p["sg"]} for p in P["params"]], "locals": [{"sz": l["sz"], "cnt": l["cnt"]} for l in P["locals"]],
                      "uses": [rnum(x) for x in P["uses"]], "body": body,
                      "cv": {"pres": C["pres"][g.mode], "ck": C["ck"][g.mode], "up": 1 << 16 if P["cv"] == "win64" else 0}})
    value = lambda v: v if isinstance(v, list) else list(((adr[v[0]] - v[1]) & (1 << 8 * g.w) - 1).to_bytes(g.w, "little"))
    env = [[[x, value(v)] for x, v in g.env.get(q, [])] for q in range(1, 256)]
    return {"mode": g.mode, "code": list(image) + [0x90] * 16, "len": len(image), "ip": 0, "vars": [], "procs": procs, "env": env, "start": g.start,
            "low": 8 if g.mode == 64 else 0, "red": 128 if g.conv == "systemv" else 0}
