"""Sources of several files with macros and loops (Sources.tla)."""

DIRS = [[], ["sub"], ["sub", "deep"], ["inc1"], ["inc2"], ["other"]]


class Gen:
    def __init__(self, rng, mode):
        self.r, self.mode = rng, mode
        r = rng
        self.bodies, self.files, self.macros, self.bins, self.disk, self.nid = [], [], [], [], {}, 0
        self.cost = [0]
        self.dirs = [{"txt": "/".join(d) + "/", "dir": d} for d in r.sample([["inc1"], ["inc2"]], r.randint(1, 2))]
        self.fallback = self.dirs[-1]["dir"]
        # names by level; a file includes names of higher levels only
        self.names = {l: ["f%d%s.inc" % (l, x) for x in "ab"[:r.randint(1, 2)]] for l in (1, 2, 3)}
        self.needs = {1: set(), 2: set(), 3: set(), 4: set()}
        # macros: 1 is called by everything, later ones by earlier ones
        self.nmac = r.randint(1, 4)
        self.where = r.choice(["main", "main", "inc"])
        mtexts = []
        for t in range(self.nmac):
            self.macros.append({"name": "mac%d" % (t + 1), "file": "m.asm" if self.where == "main" else "defs.inc", "b": 0})
        for t in range(self.nmac - 1, -1, -1):
            b, L = self.body(r.randint(1, 6), 9, t + 1, "mac")
            self.macros[t]["b"] = b
            mtexts.append(["mac%d macro" % (t + 1)] + L + ["endm"])
        r.shuffle(mtexts)
        todo = []
        head = [".386", ".model flat%s" % (", c" if mode == "lines" else ""), ".code"]
        defs = [x for m in mtexts for x in m]
        pre, preL = [], []
        if self.where == "main":
            preL = head + defs
            pre = [{"k": "skip", "n": len(preL)}]
        else:
            d = r.choice(DIRS)
            pre = [{"k": "skip", "n": 3}, {"k": "incl", "n": 1, "txt": "".join(x + "/" for x in d), "dir": d, "base": "defs.inc"}]
            preL = head + ["include %sdefs.inc" % "".join(x + "/" for x in d)]
            b = self.new([{"k": "skip", "n": len(defs)}])
            todo.append(({"dir": d, "base": "defs.inc", "b": b}, defs))
        b, L = self.body(r.randint(6, 14), 0, 0, "file")
        B = self.bodies[b - 1]
        for l in (1, 2, 3):
            have = {(d, n) for n in self.names[l] for d in ({tuple(r.choice(DIRS)) for _ in range(r.randint(0, 3))})} | self.needs[l]
            for d, nm in sorted(have):
                q, fl = self.body(r.randint(1, 7), l, 0, "file")
                todo.append(({"dir": list(d), "base": nm, "b": q}, fl))
        have = {(d, n) for n in ("d.bin", "e.dat") for d in ({tuple(r.choice(DIRS)) for _ in range(2)})} | self.needs[4]
        for d, nm in sorted(have):
            n = r.choice([0, 1, 2, 5, 20, 21, 22, 700, 1500])
            self.bins.append({"dir": list(d), "base": nm, "b": [r.randrange(256) for _ in range(n)]})
        self.bodies[b - 1] = pre + B + [{"k": "skip", "n": 1}]
        self.text = self.join(preL + L + ["end"])
        self.files = [{"dir": [], "base": "m.asm", "b": b}]
        for F, L in todo:
            self.files.append(F)
            self.disk["/".join(F["dir"] + [F["base"]])] = self.join(L)
        for F in self.bins:
            self.disk["/".join(F["dir"] + [F["base"]])] = bytes(F["b"])
        for d in DIRS:
            self.disk.setdefault("/".join(d + ["x.x"]), "")

    def join(self, L):
        r = self.r
        nl = r.choice(["\n", "\r\n"])
        return nl.join(L) + r.choice([nl, nl, ""])

    def new(self, b):
        self.bodies.append(b)
        return len(self.bodies)

    def ident(self):
        self.nid += 1
        return "zq%dz" % self.nid

    def need(self, level, d, base):
        n = []
        for x in self.fallback + d:
            if x == "..":
                n.pop()
            elif x != ".":
                n.append(x)
        self.needs[level].add((tuple(n), base))

    def path(self, level):
        r = self.r
        d = r.choice([[], [], [], ["sub"], ["sub", "deep"], [".."], ["..", "sub"], ["deep"], ["."], ["inc2"]])
        sep = r.choice(["/", "/", "\\"])
        return "".join(x + sep for x in d), d

    def body(self, n, level, mac, kind):
        """level: of the file (9: in a macro), mac: macros above this one may be called. -> number, lines"""
        r = self.r
        S, L = [], []

        def put(s, lines):
            s["n"] = len(lines)
            S.append(s)
            L.extend(lines)
        for _ in range(n):
            c = r.random()
            inmac = kind != "file"
            if self.mode == "lines":
                if c < .4:
                    c = .2 if c < .3 else 0
                while .42 <= c < .48 or .74 <= c < .8:
                    c = r.random()
                if .15 <= c < .42:
                    i, h = r.choice([("nop", "90"), ("cdq", "99"), ("inc eax", "40"), ("xor eax, eax", "33c0"), ("mov eax, 5", "b805000000")])
                    put({"k": "ins", "b": list(bytes.fromhex(h))}, [" " + i])
                    continue
                if .48 <= c < .62:
                    if level == 0:
                        put({"k": "skip"}, ["%s proc" % self.ident()])
                        nm = L[-1].split()[0]
                        for _ in range(r.randint(1, 3)):
                            if r.random() < .3:
                                put({"k": "skip"}, [""] * r.randint(1, 2))
                            put({"k": "ins", "b": [0x42]}, [" inc edx"])
                        put({"k": "ins", "b": [0xc3]}, [" ret"])
                        put({"k": "skip"}, ["%s endp" % nm])
                    continue
            if c < .15:
                x = r.random()
                if x < .4:
                    put({"k": "skip"}, [r.choice(["", "; nothing", "   ", "\t;"])] * r.randint(1, 3))
                elif x < .6 and not inmac:
                    put({"k": "skip"}, ["comment ~ a"] + ["db 1 \\", "include x", "endm"][:r.randint(0, 3)] + ["b ~ c"])
                elif x < .8:
                    put({"k": "skip"}, ["if 0", " db 77h", "else"])
                    if self.mode == "lines":
                        put({"k": "ins", "b": [0x47]}, ["inc edi"])
                    else:
                        put({"k": "emit", "b": [r.randrange(256)]}, ["db %d" % 0])
                        L[-1] = " db %d" % S[-1]["b"][0]
                    put({"k": "skip"}, ["endif"])
                else:
                    put({"k": "skip"}, ["if 1", "elseif 1", " .err", "include nosuch.inc", "endif"])
            elif c < .27:
                b = [r.randrange(256) for _ in range(r.randint(1, 4))]
                t = [str(x) for x in b]
                if not inmac and len(b) > 1 and r.random() < .5:
                    put({"k": "emit", "b": b}, [" db " + ",".join(t[:1]) + ",\\", "  " + ",".join(t[1:])])
                elif not inmac and len(b) > 2 and r.random() < .6:
                    put({"k": "emit", "b": b}, [" db " + t[0] + ", ; first", "  " + ",".join(t[1:])])
                else:
                    put({"k": "emit", "b": b}, [" db " + ",".join(t)])
            elif c < .42:
                put({"k": "line"}, [r.choice([" dw @Line", "  dw @line"])])
            elif c < .48:
                put({"k": "name"}, ["%  db \"&@FileCur&\""])
            elif c < .62 and self.mode != "bytes":
                i = self.ident()
                if self.mode == "bad":
                    put({"k": "bad", "id": i}, [r.choice([" %s bar", "%s 5", "\t%s bar, 1"]) % i])
                else:
                    put({"k": "late", "id": i}, [r.choice([" dw %s", " mov eax, %s", " .err <%s>", " .errnz 1, <%s>", " .errb <>, <%s>", " call %s"]) % i])
            elif c < .74 and level in (0, 1, 2, 9) and self.cost[0] < 12:
                lv = r.randint(level + 1, 3) if level < 9 else 3
                if level == 9:
                    # in macros: files of the last level, which call no macros
                    lv = 3
                txt, d = self.path(lv)
                b = r.choice(self.names[lv])
                self.cost[0] += 1
                self.need(lv, d, b)
                put({"k": "incl", "txt": txt, "dir": d, "base": b, "lv": lv}, [" include %s%s" % (txt, b)])
            elif c < .80 and self.mode != "lines":
                txt, d = self.path(0)
                b = r.choice(["d.bin", "e.dat"])
                self.need(4, d, b)
                off, size = r.choice([(0, -1), (0, 0), (0, 3), (1, -1), (2, 2), (19, 5), (20, -1), (30, 1), (600, 300), (0, 5000)])
                a = "" if (off, size) == (0, -1) else (", %d" % off) + (", %d" % size if size >= 0 else "") if off or r.random() < .5 else ", , %d" % size if size >= 0 else ", 0"
                put({"k": "bin", "txt": txt, "dir": d, "base": b, "off": off, "size": size}, [" incbin %s%s%s%s" % ("<", txt, b + ">", a)])
            elif c < .90 and mac < self.nmac and level != 3:
                t = r.randint(mac + 1, self.nmac)
                put({"k": "mac", "t": t}, [" mac%d" % t])
            elif kind != "loop2":
                cnt = r.randint(0, 3)
                lp, items = r.choice([("repeat %d" % cnt, 0), ("for y,<%s>" % ",".join("pqr"[:cnt]), 1), ("forc y,<%s>" % "pqr"[:cnt], 1), ("rept %d" % cnt, 0), ("irp y,<%s>" % ",".join("pqr"[:cnt]), 1)])
                if items and cnt == 0:
                    cnt, lp = 2, "for y,<5,6>"
                v = {"file": "y", "mac": "y", "loop": "u"}[kind]
                lp = lp.replace(" y,", " %s," % v)
                b, bl = self.body(r.randint(1, 4), 9 if level != 3 else 3, mac if level != 3 else self.nmac, "loop" if kind != "loop" else "loop2")
                put({"k": "loop", "b": b, "cnt": cnt}, [" " + lp] + bl + [" endm"])
        if kind == "mac" and r.random() < .2:
            put({"k": "exit"}, [" exitm"])
            put({"k": "skip"}, [" db 1"])
        return self.new(S), L

    def opts(self):
        return (["-coff", "-Zd"] if self.mode == "lines" else ["-bin"]) + ["-e1000"] + ["-I" + d["txt"].rstrip("/") for d in self.dirs]

    def case(self):
        return {"files": self.files, "macros": self.macros, "bodies": self.bodies, "bins": self.bins, "dirs": self.dirs}
