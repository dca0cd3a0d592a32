"""Modules of PROC FRAME procedures, and their objects as cases of UnwindBatch."""
import objs

NV = ["rbx", "rbp", "rsi", "rdi", "r12", "r13", "r14", "r15"]
NVX = ["xmm%d" % k for k in range(6, 16)]
VOL = ["rax", "rcx", "rdx", "r8", "r9", "r10", "r11"]


class Gen:
    def __init__(self, rng, kind, opts=()):
        """kind: "explicit", or generated prologues with these options"""
        self.r, self.kind, self.opts = rng, kind, list(opts)
        self.procs, self.L = [], ["option casemap:none", "extern h1:near, h2:near", "q1 proto fastcall :qword, :qword, :qword, :qword, :qword, :qword"]
        self.regs = [[rng.randrange(256) for _ in range(8)] for _ in range(16)]
        self.vec = [[rng.randrange(256) for _ in range(16)] for _ in range(16)]
        if kind != "explicit":
            self.L += ["option frame:auto"] + ["option " + o for o in self.opts]
        segs = [".code"]
        for k in range(rng.choice([0, 0, 1])):
            segs.append("two")
        n = 0
        for s in segs * rng.choice([1, 1, 2]):
            self.L.append(s if s == ".code" else "two segment align(16) flat 'CODE'")
            for _ in range(rng.randint(1, 4)):
                n += 1
                self.sec = s
                for _ in range(rng.choice([0, 0, 1, 2])):
                    self.L.append(" nop")
                (self.plain if rng.random() < .12 else self.explicit if kind == "explicit" else self.generated)("p%d" % n)
            if s != ".code":
                self.L.append("two ends")
        if any("4200" in l for l in self.L):
            self.L += [".code", "__chkstk:", " ret"]
        self.L.append("end")

    def source(self):
        return "\n".join(self.L) + "\n"

    def note(self, n, frame, hand="", mach=0):
        self.procs.append({"n": n, "frame": frame, "hand": hand, "mach": mach})

    def head(self, n, frame=True):
        h = self.r.choice(["", "", "h1", "h2"]) if frame else ""
        self.note(n, int(frame or self.kind == "auto"), h)   # OPTION FRAME:AUTO is for every procedure
        self.L.append("public %s_e" % n)
        return "%s proc%s" % (n, (" frame" + (":" + h if h else "")) if frame else "")

    def tail(self, n, ep=()):
        self.L += [" int 3"] + list(ep) + [" ret", "%s endp" % n, "%s_e label near" % n]

    def plain(self, n):
        self.L += [self.head(n, False), " mov eax, 1"]
        self.tail(n)

    def body(self, saved, savedx, fixed=True):
        r = self.r
        for _ in range(r.randint(0, 5)):
            c = r.random()
            if c < .4 and saved:
                self.L.append(" mov %s, %d" % (r.choice(saved), r.randrange(1 << 20)))
            elif c < .6 and savedx:
                x = r.choice(savedx)
                self.L.append(" %s %s, %s" % (r.choice(["pxor", "movaps"]), x, x if r.random() < .5 else "xmm%d" % r.randint(0, 5)))
            elif c < .75 and not fixed:
                self.L.append(r.choice([" push rax", " sub rsp, 48", " push 5", " lea rsp, [rsp-64]"]))
            else:
                self.L.append(" mov %s, %d" % (r.choice(VOL), r.randrange(1 << 20)))

    def explicit(self, n):
        r, L = self.r, self.L
        h = self.head(n)
        L.append(h)
        ep = []
        mach = self.r.choice([0] * 8 + [1, 2])
        if mach:
            self.procs[-1]["mach"] = mach
            L.append(" .pushframe" + (" code" if mach == 2 else ""))
        pushed = r.sample(NV, r.choice([0, 0, 1, 2, 3, 5, 8]))
        for x in pushed:
            L += [" push %s" % x, " .pushreg %s" % x]
            if r.random() < .1:
                L.append(" nop")
        size = r.choice([0, 8, 16, 40, 120, 128, 136, 144, 1024, 4096, 65544, 400000, 524280, 524288, 524296, 600000])
        while size:
            a = size if r.random() < .8 else r.choice([8, 64, 128, 136, 524280])
            a = min(a, size)
            size -= a
            if r.random() < .3:
                L += [" mov eax, %d" % a, " sub rsp, rax", " .allocstack %d" % a]
            else:
                L += [" sub rsp, %d" % a if r.random() < .5 else " lea rsp, [rsp-%d]" % a, " .allocstack %d" % a]
            got = a
        total = sum(int(l.split()[1]) for l in L[L.index(h):] if l.startswith(" .allocstack"))
        frame = r.choice([x for x in NV if x in pushed] or [None]) if r.random() < .4 else None
        steps = []
        slots = set()
        left = [x for x in NV if x not in pushed]
        saved, savedx = list(pushed), []
        edges = [65528, 65536, 65544, 524272, 524280, 524288, 524296]
        edgesx = [65520, 65536, 131072, 524272, 524288]
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            c = r.random()
            if c < .5 and left:
                o = r.choice([8 * r.randrange(max(total // 8, 1)), r.choice(edges)])
                if o + 8 <= total and not slots & set(range(o // 8, o // 8 + 1)):
                    slots.add(o // 8)
                    x = left.pop(r.randrange(len(left)))
                    saved.append(x)
                    steps.append([" mov [rsp+%d], %s" % (o, x), " .savereg %s, %d" % (x, o)])
            elif c >= .5:
                o = r.choice([16 * r.randrange(max(total // 16, 1)), r.choice(edgesx)])
                x = r.choice([q for q in NVX if q not in savedx])
                if o + 16 <= total and not slots & {o // 8, o // 8 + 1}:
                    slots |= {o // 8, o // 8 + 1}
                    savedx.append(x)
                    steps.append([" %s [rsp+%d], %s" % (r.choice(["movups", "movdqu"]), o, x), " .savexmm128 %s, %d" % (x, o)])
        if frame:
            o = r.choice([0, 16, 32, 128, 240])
            f = [" lea %s, [rsp+%d]" % (frame, o) if o or r.random() < .5 else " mov %s, rsp" % frame, " .setframe %s, %d" % (frame, o)]
            steps.insert(r.randint(0, len(steps)), f)
        for s in steps:
            L += s
        if r.random() < .2:
            L.append(" mov r11, 3")
        L.append(" .endprolog")
        self.body([x for x in saved if x != frame], savedx, not frame)
        self.tail(n)

    def generated(self, n):
        r, L = self.r, self.L
        uses = r.sample(NV[:1] + NV[2:], r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7])) + (r.sample(["rcx", "r10", "rax"], 1) if r.random() < .1 else [])
        usesx = r.sample(NVX, r.choice([0, 0, 0, 1, 2, 4]))
        pars = ["a%d:%s" % (k, r.choice(["qword", "qword", "dword", "byte", "real8"])) for k in range(r.choice([0, 0, 1, 2, 3, 4, 5]))]
        u = uses + usesx
        if r.random() < .3:
            r.shuffle(u)
        L.append(self.head(n) + (" uses " + " ".join(u) if u else "") + (" " if pars else "") + ", ".join(pars))
        for k in range(r.choice([0, 0, 1, 2])):
            L.append(" local l%d%s" % (k, r.choice([":qword", ":dword", ":byte", "[5]:qword", "[100]:byte", "[4200]:byte"])))
        for p in pars:
            if r.random() < .4 and p.endswith("qword"):
                L.append(" mov rax, %s" % p.split(":")[0])
        self.body([x for x in uses if x in NV], usesx)
        # a call, which isn't run: it reserves stack under OPTION WIN64:2
        self.tail(n, [" invoke q1, rcx, 2, r8, 4, 5, r11"] if r.random() < .4 else [])


def case(g, b):
    o = objs.coff(b)
    S, Y = o["secs"], o["syms"]
    adr = {y["name"]: (y["sec"], int.from_bytes(bytes(y["val"]), "little")) for y in Y}
    code = [k + 1 for k, s in enumerate(S) if s["ch"] & 0x20]
    codes = [{"b": S[k - 1]["data"] + [0x90] * 16, "len": S[k - 1]["size"]} for k in code]
    for k, q in zip(code, codes):
        for rel in S[k - 1]["rel"]:   # calls within the section
            y = Y[rel["sym"] - 1]
            if rel["t"] == 4 and y["sec"] == k:
                at = rel["off"]
                d = int.from_bytes(bytes(q["b"][at:at + 4]), "little", signed=True) + adr[y["name"]][1] - at - 4
                q["b"][at:at + 4] = list((d & 0xffffffff).to_bytes(4, "little"))
    xd = [k for k, s in enumerate(S) if s["name"] == ".xdata"]
    x = S[xd[0]]["data"] if xd else []
    xrel = [{"at": q["off"], "n": Y[q["sym"] - 1]["name"] if q["t"] == 3 else "?"} for q in (S[xd[0]]["rel"] if xd else [])]
    fn = []
    for k, s in enumerate(S):
        if not s["name"].startswith(".pdata"):
            continue
        rel = {q["off"]: q for q in s["rel"]}
        for at in range(0, s["size"], 12):
            f = {"sec": 0, "b": 0, "e": 0, "u": 0, "tab": k, "ok": 0}
            t = []
            for d in (0, 4, 8):
                q = rel.get(at + d)
                if q and q["t"] == 3:
                    y = Y[q["sym"] - 1]
                    t.append((y["sec"], int.from_bytes(bytes(y["val"]), "little") + int.from_bytes(bytes(s["data"][at + d:at + d + 4]), "little")))
            if len(t) == 3 and t[0][0] == t[1][0] and t[0][0] in code and xd and t[2][0] == xd[0] + 1 and len(rel) == s["size"] // 4:
                f.update(sec=code.index(t[0][0]) + 1, b=t[0][1], e=t[1][1], u=t[2][1], ok=1)
            fn.append(f)
    procs = []
    for p in g.procs:
        a, e = adr.get(p["n"]), adr.get(p["n"] + "_e")
        if not a or not e or a[0] not in code:
            raise objs.Bad("no symbol of " + p["n"])
        procs.append(dict(p, sec=code.index(a[0]) + 1, b=a[1], e=e[1]))
    return {"codes": codes, "x": x, "xrel": xrel, "fn": fn, "procs": procs, "r": g.regs, "v": g.vec}
