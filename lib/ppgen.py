"""Random programs for the preprocessor specification (C01-C04). The programs
stay in the documented part of the language; what they must do is decided by
spec/Preproc.tla alone."""

LETTERS = "abcdxyz"


class Ctx:
    def __init__(self, kind, depth, nums, texts, junk=False, varas=(), exitable=False, infun=False):
        self.kind, self.depth, self.nums, self.texts = kind, depth, list(nums), list(texts)
        self.junk, self.varas, self.exitable, self.infun = junk, list(varas), exitable, infun

    def sub(self, **kw):
        c = Ctx(self.kind, self.depth + 1, self.nums, self.texts, self.junk, self.varas, self.exitable, self.infun)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Gen:
    def __init__(self, rng, focus="mix", errors=0.15, size=10):
        self.r = rng
        self.focus = focus
        self.nv = 4
        self.vars = ["v%d" % i for i in range(self.nv)]
        self.consts = []
        self.tnum = []      # text macros whose text is a number or expression
        self.tstr = []      # text macros holding plain words
        self.macs = {}      # name -> params [(name, kind, mode)]
        self.funs = {}
        self.uid = 0
        self.errors = errors
        self.size = size
        self.mult = 0

    # ------------------------------------------------------------ helpers
    def ch(self, *w):
        """weighted choice of (weight, value)"""
        t = sum(x[0] for x in w)
        k = self.r.random() * t
        for a, b in w:
            k -= a
            if k < 0:
                return b
        return w[-1][1]

    def p(self, x):
        return self.r.random() < x

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def name(self, pre):
        self.uid += 1
        return "%s%d" % (pre, self.uid)

    def word(self, n=None):
        n = n or self.r.randrange(1, 4)
        return "".join(self.pick(LETTERS) for _ in range(n))

    def num(self):
        k = self.r.randrange(0, 30) if self.p(.8) else self.r.randrange(0, 200)
        return self.ch((8, str(k)), (1, "0%xh" % k), (.5, "%so" % oct(k)[2:]), (.5, "%sb" % bin(k)[2:]))

    def atom(self, c):
        w = [(3, self.num)]
        w.append((3, lambda: self.pick(self.vars)))
        if self.consts:
            w.append((1.5, lambda: self.pick(self.consts)))
        if self.tnum:
            w.append((1.5 if self.focus != "equ" else 4, lambda: self.pick(self.tnum)))
        if c.nums:
            w.append((5, lambda: self.pick(c.nums)))
        return self.ch(*w)()

    def expr(self, c, d=2, mul=1, fun=True):
        if d == 0 or self.p(.3):
            return self.atom(c)
        k = self.ch((4, "+"), (2, "-"), (2 if mul else 0, "*"), (1, "and"), (1, "or"), (1, "xor"), (1.5, "rel"),
                    (1, "()"), (.7, "neg"), (.7, "not"), (.7, "low"), (.5, "mod"), (.5, "shl"),
                    (2.5 if fun and self.funs else 0, "fun"),
                    (1.5 if fun and self.focus == "equ" and c.kind == "top" else 0, "strfun"))
        if k == "strfun":
            w = self.word(self.r.randrange(1, 7))
            return self.ch((2, "@sizestr(%s)" % self.strarg(c)), (1, "@sizestr(@catstr(%s,%s))" % (self.strarg(c), self.strarg(c))),
                           (2, "@instr(%s,<%s>,<%s>)" % (self.pick(["", "1", "0"]), w, self.word(1))),
                           (1, "@instr(%d, <%s>, <%s>)" % (self.r.randrange(1, len(w) + 1), w, w[self.r.randrange(len(w))])))
        if k == "fun":
            return self.call_fun(c)
        if k == "()":
            return "(%s)" % self.expr(c, d - 1, mul, fun)
        if k == "neg":
            return "-%s" % self.atom(c)
        if k == "not":
            return "(not %s)" % self.atom(c)
        if k == "low":
            return "low (%s)" % self.expr(c, d - 1, mul, fun)
        if k == "mod":
            return "((%s) and 0ffh) %s %d" % (self.expr(c, d - 1, mul, fun), self.pick(["mod", "/"]), self.r.randrange(1, 9))
        if k == "shl":
            return "((%s) and 0ffh) %s %d" % (self.expr(c, d - 1, mul, fun), self.pick(["shl", "shr"]), self.r.randrange(0, 5))
        if k == "rel":
            k = self.pick(["eq", "ne", "lt", "le", "gt", "ge"])
        a = self.expr(c, d - 1, 0 if k == "*" else mul, fun)
        b = self.atom(c) if k == "*" else self.expr(c, d - 1, 0, fun)
        s = " " if len(k) > 1 or self.p(.5) else ""
        return a + s + k + s + b

    def strarg(self, c):
        return self.ch((3, "<%s>" % self.word()), (1, self.word()), (1, "<%s %s>" % (self.word(), self.word())), (.7, "<>"),
                       (2 if self.tstr else 0, "%" + self.pick(self.tstr) if self.tstr else ""))

    def strfun(self, c):
        """a call that returns text"""
        w = self.word(self.r.randrange(2, 7))
        p = self.r.randrange(1, len(w) + 1)
        n = self.r.randrange(0, len(w) - p + 2)
        return self.ch((2, "@catstr(%s)" % ",".join(self.strarg(c) for _ in range(self.r.randrange(1, 4)))),
                       (2, "@substr(<%s>, %d)" % (w, p)), (2, "@substr(%s,%d,%d)" % (w, p, n)),
                       (1, "@substr(@catstr(<%s>,%s), %d, 2)" % (w, self.strarg(c), self.r.randrange(1, len(w)))))

    # ------------------------------------------------------------ emission
    def emit(self, c):
        k = self.ch((6, "dd"), (2 if c.texts else .3, "str"), (1, "multi"), (1, "db"), (1.5 if c.varas else 0, "va"))
        if k == "dd":
            return ["dd %s" % self.expr(c)]
        if k == "db":
            return ["db %d" % self.r.randrange(256)]
        if k == "va":
            return ["ifnb <%s>" % c.varas[0], "dd %s" % c.varas[0], "endif"]
        if k == "multi":
            return ["dd " + ", ".join(self.expr(c, 1) for _ in range(self.r.randrange(2, 4)))]
        if c.texts:
            t = self.pick(c.texts)
            u = self.pick(c.texts)
            return ['db "%s"' % self.ch((2, "&%s" % t), (2, "%s&%s&%s" % (self.word(1), t, self.word(1))),
                                        (1, "&%s&&%s&" % (t, u)), (1, t), (1, "x%s&y" % t), (1, "-&%s&-" % t),
                                        (1, "%s.%s&" % (self.word(1), t)))]
        return ['db "%s"' % self.word()]

    def assign(self, c):
        v = self.pick(self.vars)
        if c.nums and self.p(.2) and c.kind in ("mac", "fun"):
            pass
        return ["%s = (%s) and %s" % (v, self.expr(c), self.pick(["0ffh", "0fh", "7"]))]

    # ------------------------------------------------------------ conditions
    def cond(self, c, allow_err=False):
        """-> (suffix of the directive, argument, known value or None)"""
        k = self.ch((6, "num"), (2, "def"), (2, "b"), (3, "idn"))
        if k == "num":
            e = self.ch((1, "0"), (1, "1"), (3, self.expr(c, 1)), (4, "%s %s %s" % (
                self.atom(c), self.pick(["eq", "ne", "lt", "le", "gt", "ge"]), self.atom(c))))
            return self.ch((4, ("", e)), (1, ("e", e)))
        if k == "def":
            n = self.ch((2, self.pick(self.vars)), (3, "nodef%d" % self.r.randrange(3)),
                        (1, self.pick(self.consts + self.tnum + self.tstr + self.vars)),
                        (1, self.pick(list(self.macs) + list(self.funs) + ["nodefm"])))
            return (self.pick(["def", "ndef"]), n)
        if k == "b":
            t = self.ch((1, "<>"), (1, "< >"), (1, "<%s>" % self.word()),
                        (4 if c.texts else 0, "<%s>" % (self.pick(c.texts) if c.texts else "")),
                        (2 if c.varas else 0, "<%s>" % (c.varas[0] if c.varas else "")),
                        (1 if self.tstr else 0, self.pick(self.tstr) if self.tstr else ""))
            return (self.pick(["b", "nb"]), t)
        w = self.word(1)

        def side():
            return self.ch((3, "<%s>" % w), (1, "<%s>" % w.upper()), (1, "<%s>" % self.word(1)), (.5, "<>"),
                           (.3, "<%s >" % w), (5 if c.texts else 0, "<%s>" % (self.pick(c.texts) if c.texts else "")),
                           (2 if self.tstr else 0, self.pick(self.tstr) if self.tstr else ""),
                           (1.5 if self.tnum else 0, "%%(%s) and 0ffh" % self.expr(c, 1, fun=False)))
        return (self.pick(["idn", "idni", "dif", "difi"]), "%s, %s" % (side(), side()))

    def junk(self, c):
        """statements that must never be looked at"""
        n = self.r.randrange(1, 4)
        out = []
        for _ in range(n):
            k = self.r.randrange(12)
            out += [[".err"], ["bogus stuff ,, ("], ["x = = 3"], ["db undefinedsym, 300"], ["dd 1/0"],
                    ["include nosuch.inc"], ["%s = 77" % self.pick(self.vars)], ["db 99,99"],
                    ["if undefinedsym", "db 55", "elseif alsoundefined", "db 56", "else", "db 57", "endif"],
                    ["ifdef %s" % self.pick(self.vars), ".err", "else", ".err", "endif"],
                    ["exitm"] if c.exitable else ["ifb <>", ".err", "endif"],
                    ["ife 0", "if 1", "db 1", "elseif 1", "db 2", "endif", "else", "db 58", "endif"]][k]
        return out

    def condblock(self, c):
        out = []
        d = c.sub()
        nb = self.ch((3, 0), (3, 1), (1.5, 2), (.7, 3))
        has_else = self.p(.6)
        s, a = self.cond(c)
        dead = self.p(.2)
        if dead:
            s, a = self.pick([("", "0"), ("", "1 eq 2"), ("def", "nodef9"), ("idn", "<a>,<b>"), ("nb", "<>"), ("e", "5")])
        out.append("if%s %s" % (s, a))
        out += self.junk(c) if dead else self.block(d, self.r.randrange(1, 3))
        taken = False
        for _ in range(nb):
            s, a = self.cond(c)
            x = self.r.random()
            if taken:
                out.append("elseif%s %s" % (self.pick([("", "undefsym/0"), (s, a), ("", "1")])))
                out += self.junk(c)
            elif x < .2:
                out.append("elseif 1")
                out += self.block(d, self.r.randrange(1, 3))
                taken = True
            else:
                out.append("elseif%s %s" % (s, a))
                out += self.block(d, self.r.randrange(1, 3))
        if has_else:
            out.append("else")
            out += self.junk(c) if taken else self.block(d, self.r.randrange(1, 3))
        out.append("endif")
        return out

    # ------------------------------------------------------------ loops
    def loop(self, c):
        k = self.ch((3, "repeat"), (2.5, "while"), (4, "for"), (3, "forc"))
        d = c.sub(exitable=True, infun=False)
        n = self.r.randrange(1, 3)
        pre = []
        loc = []
        if self.p(.3):
            l = self.name("lc")
            loc = ["local %s" % l, "ifdef %s" % l, ".err", "endif", "%s = %s" % (l, self.num())]
            d.nums.append(l)
        if k == "repeat":
            head = "%s %s" % (self.pick(["repeat", "rept"]),
                              self.ch((4, str(self.r.randrange(0, 4))), (2, "(%s) and 3" % self.expr(c, 1)), (.5, "-2")))
        elif k == "while":
            w = self.name("w")
            pre = ["%s = %d" % (w, self.r.randrange(0, 4))]
            head = "while %s" % self.pick(["%s", "%s gt 0", "%s ne 0"]) % w
            d.nums.append(w)
            body = self.block(d, n)
            return pre + [head] + loc + ["%s = %s - 1" % (w, w)] + body + ["endm"]
        elif k == "for":
            q = self.name("p")
            kind = self.ch((3, "n"), (2, "t"))
            if kind == "n":
                items = [self.ch((4, self.num()), (1, self.pick(self.vars)), (1, "%s+1" % self.num()),
                                 (1, "%%%s" % self.expr(c, 1, fun=False)), (1, "<%s>" % self.num()))
                         for _ in range(self.r.randrange(1, 4))]
                if c.varas and self.p(.5):
                    pre = ["ifnb <%s>" % c.varas[0]]
                    d.nums.append(q)
                    return pre + ["for %s, <%s>" % (q, c.varas[0])] + loc + ["dd %s" % q] + self.block(d, 1) + ["endm", "endif"]
                mode = self.ch((3, ""), (1, ":=<%s>" % self.num()), (.5, ":req"))
                if mode.startswith(":=") and self.p(.7):
                    items.insert(self.r.randrange(len(items)), "")
                head = "%s %s%s, <%s>" % (self.pick(["for", "irp"]), q, mode, self.pick([",", ", "]).join(items))
                d.nums.append(q)
            else:
                items = [self.ch((5, self.word()), (1, "<%s>" % self.word()), (.7, "<%s %s>" % (self.word(), self.word())),
                                 (.6, "")) for _ in range(self.r.randrange(1, 4))]
                if items[-1] == "":
                    items[-1] = "z"
                head = "%s %s, <%s>" % (self.pick(["for", "irp"]), q, ",".join(items))
                d.texts.append(q)
        else:
            q = self.name("p")
            if self.p(.15):
                # any characters: the body only looks at them
                s = "".join(self.pick("\t ,.+-()*:=?/#$@ab1" if self.p(.8) else ["!<", "!>", "!!", "!,", "!a"])
                            for _ in range(self.r.randrange(1, 6)))
                body = [self.pick(['db "&%s&"', 'db "&%s"', 'db "x&%s&y"']) % q]
                if "!" not in s:
                    body += self.pick([[], ["if%sb <%s>" % (self.pick(["", "n"]), q), "db 1", "endif"],
                                       ["if%s <%s>,<%s>" % (self.pick(["idn", "dif"]), q, self.pick("\t ,.+ab(")), "db 2", "endif"]])
                return ["%s %s, <%s>" % (self.pick(["forc", "irpc"]), q, s)] + body + ["endm"]
            if self.p(.4):
                head = "forc %s, <%s>" % (q, "".join(self.pick("0123456789") for _ in range(self.r.randrange(1, 4))))
                d.nums.append(q)
            else:
                s = "".join(self.pick(LETTERS + "019 ") for _ in range(self.r.randrange(1, 4))).strip() or "q"
                head = "%s %s, <%s>" % (self.pick(["forc", "irpc"]), q, s)
            d.texts.append(q)
        body = self.block(d, n)
        if self.p(.2):
            body += ["if %s" % self.expr(d, 1, fun=False), "exitm", "endif"] + self.block(d, 1)
        if self.p(.1):
            lab = self.name("e")
            body = ["if %s" % self.expr(d, 1, fun=False), "goto %s" % lab, "endif"] + body + [": %s" % lab] + self.emit(d)
        return pre + [head] + loc + body + ["endm"]

    # ------------------------------------------------------------ macros
    def params(self):
        ps = []
        for _ in range(self.ch((1, 0), (3, 1), (3, 2), (1, 3))):
            n = self.name("p")
            kind = self.ch((3, "n"), (2, "t"))
            mode = self.ch((3, "req"), (3, "def"), (2, ""))
            if kind == "n" and mode == "":
                mode = "def"
            ps.append((n, kind, mode))
        if self.p(.25):
            ps.append((self.name("p"), "n", "vararg"))
        return ps

    def parlist(self, ps):
        out = []
        for n, k, m in ps:
            if m == "req":
                out.append(n + ":req")
            elif m == "def":
                out.append("%s:=<%s>" % (n, self.num() if k == "n" else self.word()))
            elif m == "vararg":
                out.append(n + ":vararg")
            else:
                out.append(n)
        return ", ".join(out)

    def macdef(self, c, redefine=None):
        m = redefine or self.name("m")
        ps = self.params()
        d = Ctx("mac", c.depth + 1, [p[0] for p in ps if p[1] == "n" and p[2] != "vararg"],
                [p[0] for p in ps if p[1] == "t"] + [p[0] for p in ps if p[1] == "n" and p[2] != "vararg"],
                varas=[p[0] for p in ps if p[2] == "vararg"], exitable=True)
        out = ["%s macro %s" % (m, self.parlist(ps))]
        if self.p(.5):
            ls = [self.name("lc") for _ in range(self.r.randrange(1, 3))]
            out.append("local %s" % ", ".join(ls))
            for l in ls:
                out += ["ifdef %s" % l, ".err", "endif", "%s = %s" % (l, self.expr(d, 1, fun=False))]
                d.nums.append(l)
        t = self.ch((5, "plain"), (1.2, "goto"), (1, "rec"), (1, "nest"), (.7, "selfdef"))
        if t == "plain":
            out += self.block(d, self.r.randrange(1, 4))
            if self.p(.3):
                s, a = self.cond(d)
                out += ["if%s %s" % (s, a), "exitm", "endif"] + self.block(d, 1)
        elif t == "goto":
            v = self.name("g")
            out += ["%s = %d" % (v, self.r.randrange(1, 4)), ":top"]
            d.nums.append(v)
            inner = self.emit(d)
            out += self.pick([
                ["if %s gt 0" % v] + inner + ["%s = %s - 1" % (v, v), "goto top", "endif"],
                inner + ["%s = %s - 1" % (v, v), "if %s le 0" % v, "goto bot", "else", "if 1", "goto top", "endif", "endif",
                         ".err", ":bot"]]) + self.emit(d)
        elif t == "rec":
            q = self.name("p")
            ps = [(q, "n", "rec")]
            out = ["%s macro %s" % (m, q)]
            d.nums = [q]
            d.texts = [q]
            d.varas = []
            inner = self.emit(d)
            out += self.pick([["if %s gt 0" % q] + inner + ["%s %%(%s)-1" % (m, q)] + self.emit(d) + ["endif"],
                              ["ife %s" % q, "exitm", "endif"] + inner + ["%s %s-1" % (m, q)],
                              ["if %s" % q, "%s %%%s-1" % (m, q), "else", "dd 7", "exitm", "endif"] + inner])
        elif t == "nest":
            z = self.name("m")
            q = self.name("p")
            out += ["%s macro %s" % (z, q)] + ["dd %s, %s" % (q, self.expr(d, 1, fun=False))] + ["endm"]
            out += ["%s %s" % (z, self.num())] + self.block(d, 1)
        else:
            q = {x[0]: self.name("p") for x in ps}
            ps2 = [(q[a], b, e) for a, b, e in ps]
            d2 = Ctx("mac", d.depth, [q.get(x, x) for x in d.nums if x in q], [q[x] for x in d.texts if x in q])
            out += self.emit(d) + ["%s macro %s" % (m, self.parlist(ps2))] + self.emit(d2) + ["endm"] + self.emit(d)
        out.append("endm")
        if not redefine or True:
            self.macs[m] = ps
        return out

    def fundef(self, c):
        f = self.name("f")
        ps = [p for p in self.params() if p[2] != "vararg" and p[1] == "n"] or [(self.name("p"), "n", "req")]
        d = Ctx("fun", c.depth + 1, [p[0] for p in ps], [p[0] for p in ps], exitable=True, infun=True)
        t = self.ch((3, "simple"), (2, "cond"), (1.5, "local"), (1.5, "loop"), (1, "rec"))
        out = ["%s macro %s" % (f, self.parlist(ps))]

        def ret():
            return self.ch((3, "exitm <(%s)>" % self.expr(d, 1, fun=False)), (2, "exitm %%(%s) and 0ffh" % self.expr(d, 1, fun=False)),
                           (1, "exitm <%s>" % self.pick(d.nums)))
        if t == "simple":
            out += [ret()]
        elif t == "cond":
            s, a = self.cond(d)
            out += ["if%s %s" % (s, a), ret(), "else", ret(), "endif"] if self.p(.5) else \
                   ["if%s %s" % (s, a), ret(), "endif", ret()]
        elif t == "local":
            l = self.name("lc")
            out += ["local %s" % l, "ifdef %s" % l, ".err", "endif", "%s = (%s) and 0ffh" % (l, self.expr(d, 1, fun=False))]
            if self.p(.4):
                out += self.emit(d)
            out += ["exitm <%s>" % l]
        elif t == "loop":
            l = self.name("g")
            out += ["%s = 0" % l, "repeat %d" % self.r.randrange(0, 4), "%s = (%s*2+%s) and 0ffh" % (l, l, self.pick(d.nums))]
            if self.p(.3):
                out += ["if %s gt 9" % l, "exitm", "endif"]
            out += ["endm", "exitm %%%s" % l]
        else:
            q = ps[0][0]
            out = ["%s macro %s" % (f, q), "if (%s) le 0" % q, "exitm <1>", "endif",
                   "exitm <(%s+%s(%%(%s)-1))>" % (self.num(), f, q)]
            ps = [(q, "n", "rec")]
        out.append("endm")
        self.funs[f] = ps
        return out

    def arg(self, c, kind, mode, infun=False):
        if mode == "rec":
            return str(self.r.randrange(0, 4))
        if kind == "n":
            return self.ch((4, self.num()), (2, self.pick(self.vars)), (2, "%%%s" % self.expr(c, 1, fun=False)),
                           (1, "<%s+%s>" % (self.num(), self.num())), (1, "%s+%s" % (self.num(), self.num())),
                           (2 if c.nums else 0, self.pick(c.nums) if c.nums else ""),
                           (1.5 if self.funs and not infun else 0, self.call_fun(c, 1) if self.funs and not infun else ""))
        return self.ch((4, self.word()), (1, "<%s %s>" % (self.word(), self.word())), (1, "<%s>" % self.word()),
                       (1, "%s%d" % (self.word(), self.r.randrange(9))),
                       (1 if self.tstr and not infun else 0, "%" + self.pick(self.tstr) if self.tstr else ""),
                       (2 if c.texts else 0, self.pick(c.texts) if c.texts else ""))

    def args(self, c, ps, infun=False):
        out = []
        for n, k, m in ps:
            if m == "vararg":
                out += [self.arg(c, k, m, infun) for _ in range(self.r.randrange(0, 4))]
            elif m in ("def", "") and self.p(.3):
                out.append("")
            else:
                out.append(self.arg(c, k, m, infun))
        if not infun and self.p(.06) and not (ps and ps[-1][2] == "vararg"):
            if len(out) == len(ps):
                out.append(self.num())
        while out and out[-1] == "" and (self.p(.7) or ps[-1][2] == "vararg"):
            out.pop()
        if infun and out and out[-1] == "":
            out.pop()
        return self.pick([", ", ","]).join(out)

    def call(self, c):
        if not self.macs:
            return self.emit(c)
        m = self.pick(list(self.macs))
        return [("%s %s" % (m, self.args(c, self.macs[m]))).rstrip()]

    def call_fun(self, c, d=0):
        f = self.pick(list(self.funs))
        if d and self.funs[f][0][2] == "rec":   # its text would still hold a call
            return self.num()
        if d < 2 and self.p(.2) and self.funs[f][0][2] != "rec":
            a = [self.call_fun(c, d + 1)] + [self.arg(c, "n", "", True) for _ in self.funs[f][1:]]
            return "%s(%s)" % (f, ", ".join(a))
        return "%s(%s)" % (f, self.args(c, self.funs[f], True))

    # ------------------------------------------------------------ equates
    def equate(self, c):
        k = self.ch((2, "tnum"), (2, "tstr"), (1.5, "const"), (2, "cat"), (2, "sub"), (1.5, "size"), (1.5, "instr"),
                    (1, "same"))
        if c.kind != "top" or c.depth > 0:
            k = self.ch((2, "tnum2"), (2, "tstr2"), (2, "var"))
        if k in ("tnum", "tnum2"):
            v = self.ch((3, self.num()), (2, "%s+%s" % (self.num(), self.num())), (1, "(%s)" % self.pick(self.vars)),
                        (1, self.pick(self.vars)))
            if k == "tnum2":
                if not self.tnum:
                    return self.assign(c)
                return ["%s textequ <%s>" % (self.pick(self.tnum), v)]
            n = self.pick(self.tnum) if self.tnum and self.p(.5) else self.name("tn")
            res = ["%s %s" % (n, self.ch((3, "textequ <%s>" % v), (2, "equ <%s>" % v),
                                          (2, "textequ %%(%s) and 0ffh" % self.expr(c, 1, fun=False))))]
            if n not in self.tnum:
                self.tnum.append(n)
            return res
        if k in ("tstr", "tstr2"):
            v = self.word(self.r.randrange(1, 7))
            if k == "tstr2":
                if not self.tstr:
                    return self.assign(c)
                return ["%s textequ <%s>" % (self.pick(self.tstr), v)]
            n = self.pick(self.tstr) if self.tstr and self.p(.5) else self.name("ts")
            if n not in self.tstr:
                self.tstr.append(n)
            return ["%s %s <%s>" % (n, self.pick(["textequ", "equ", "catstr"]), v)]
        if k == "const":
            n = self.name("kk")
            res = ["%s equ %s" % (n, self.expr(c, 1, fun=False))]
            self.consts.append(n)
            return res
        if k == "same" and self.consts:
            n = self.pick(self.consts)
            return ["%s equ %s" % (n, n)] if self.p(.5) else ["%s equ (%s)" % (n, n)]
        if k == "var":
            return self.assign(c)
        if not self.tstr:
            return self.assign(c)

        def item():
            return self.ch((3, self.pick(self.tstr)), (2, "<%s>" % self.word()), (1.5, self.strfun(c)),
                           (1, "%%(%s) and 0fffh" % self.expr(c, 1, fun=False)), (.5, "<>"))
        if k == "cat":
            n = self.name("ts") if self.p(.6) else self.pick(self.tstr)
            s = "%s %s %s" % (n, self.pick(["catstr", "textequ"]), ", ".join(item() for _ in range(self.r.randrange(1, 4))))
            if n not in self.tstr:
                self.tstr.append(n)
            return [s]
        if k == "sub":
            w = self.word(self.r.randrange(3, 8))
            b = self.name("ts")
            n = self.name("ts") if self.p(.6) else self.pick(self.tstr)
            pos = self.r.randrange(1, len(w) + 1)
            cnt = self.r.randrange(0, len(w) - pos + 2)
            self.tstr.append(b)
            if n not in self.tstr:
                self.tstr.append(n)
            return ["%s textequ <%s>" % (b, w), "%s substr %s, %d%s" % (n, self.pick([b, "<%s>" % w]), pos,
                                                                  "" if self.p(.3) else ", %d" % cnt)]
        v = self.name("z") if self.p(.5) else self.pick(self.vars)
        if k == "size":
            it = item()
            if v not in self.vars:
                self.vars.append(v)
            return ["%s sizestr %s" % (v, it)]
        if v not in self.vars:
            self.vars.append(v)
        w = self.word(6)
        b = self.r.randrange(0, 6)
        pat = w[b:b + self.r.randrange(1, 3)] if self.p(.7) else self.word(2)
        return ["%s instr %s<%s>, <%s>" % (v, "" if self.p(.5) else "%d, " % self.r.randrange(1, 7), w, pat)]

    # ------------------------------------------------------------ errors
    def error(self, c):
        n = self.name("er")
        if self.focus == "equ" and self.p(.4):
            return self.pick([["%s textequ @substr(<abc>,4)" % n], ["%s textequ @substr(<abc>,2,3)" % n],
                              ["dd @instr(4,<abc>,<c>)"], ["dd 1", "%s = 5" % n, "%s equ 6" % n],
                              ["%s equ 7" % n, "%s equ 7" % n, "%s equ 8" % n], ["%s textequ <a>" % n, "%s = 1" % n],
                              ["dd nosuch%s" % n]])
        return self.pick([
            [".err"], ["endif"], ["else"], ["elseif 1"], ["if 1", "else", "else", "endif"],
            ["if 0", "else", "elseif 1", "endif"], ["%s equ 1" % n, "%s equ 2" % n],
            ["%s = 1" % n, "%s textequ <a>" % n], ["%s equ 1" % n, "%s = 2" % n],
            ["%s macro a:req" % n, "dd 1", "endm", n], ["%s macro a" % n, "dd 1", "goto nolabel", "endm", "%s 1" % n],
            ["%s = %s/0" % (n, self.pick(self.vars))], ["%s substr <abc>, 4" % n], ["%s substr <abc>, 2, 3" % n],
            ["if 1", "dd 1"], ["%s = 1" % n, "%s macro" % n, "endm"], ["if undefd", "dd 1", "else", "dd 2", "endif"],
            ["%s substr <abc>, 0" % n], ["%s equ <a>" % n, "%s macro" % n, "endm"] if 0 else [".err <txt>"],
        ])

    # ------------------------------------------------------------ blocks
    def stmt(self, c):
        deep = c.depth >= 3
        F = self.focus
        top = c.kind == "top" and c.depth == 0
        k = self.ch((4, "emit"), (2, "assign"),
                    (0 if deep else {"cond": 7, "loop": 2, "mac": 2, "equ": 2}.get(F, 3), "cond"),
                    (0 if deep else {"cond": 1, "loop": 6, "mac": 1.5, "equ": 1.5}.get(F, 2), "loop"),
                    (0 if not top else {"cond": 1, "loop": 1, "mac": 5, "equ": 1}.get(F, 2), "macdef"),
                    (0 if not top else {"cond": .5, "loop": .7, "mac": 3, "equ": .7}.get(F, 1), "fundef"),
                    (0 if c.kind == "mac" or c.depth > 2 else {"mac": 6, "loop": 1.5, "cond": 1.5, "equ": 1}.get(F, 2), "call"),
                    ({"equ": 7, "cond": 1}.get(F, 1.5), "equ"))
        if k == "emit":
            return self.emit(c)
        if k == "assign":
            return self.assign(c)
        if k == "cond":
            return self.condblock(c)
        if k == "loop":
            return self.loop(c)
        if k == "macdef":
            if self.macs and self.p(.12):
                m = self.pick(list(self.macs))
                out = self.macdef(c, m)
                return (["purge %s" % m] if self.p(.3) else []) + out
            return self.macdef(c)
        if k == "fundef":
            return self.fundef(c)
        if k == "call":
            return self.call(c)
        return self.equate(c)

    def block(self, c, n):
        out = []
        for _ in range(n):
            out += self.stmt(c)
        return out

    def program(self):
        c = Ctx("top", 0, [], [])
        out = ["%s = %d" % (v, self.r.randrange(0, 9)) for v in self.vars]
        n = self.size
        body = []
        for _ in range(n):
            body.append(self.stmt(c))
        if self.p(self.errors):
            k = self.r.randrange(len(body) + 1)
            body.insert(k, self.error(c))
        if self.focus == "equ" and self.p(.5):
            for _ in range(self.r.randrange(1, 3)):
                n = self.name("fw")
                a, b = sorted((self.r.randrange(len(body) + 1), self.r.randrange(len(body) + 1)))
                d = self.pick([["%s equ %d" % (n, self.r.randrange(300))], ["%s = %d" % (n, self.r.randrange(300))]])
                body.insert(b, d)
                body.insert(a, self.pick([["dd %s" % n], ["dd %s" % n, "dw %s, 5" % n], ["repeat 2", "dd %s" % n, "endm"]]))
        # every value once more at the end
        tail = ["dd %s" % v for v in self.vars + self.consts]
        for t in self.tstr:
            tail += ["for zz, <%%%s>" % t, "db \"&zz\"", "endm"] if False else []
        for b in body:
            out += b
        return out + tail


def render(lines, rng, head, tail=(), late=0):
    """The assembler text of a program: random layout that must not matter."""
    out = list(head)
    inm = 0
    for l in lines:
        s = l
        x = rng.random()
        if l.startswith(":"):
            out.append(s)
            continue
        if x < .25:
            s = "  " + s
        elif x < .3:
            s = "\t" + s
        if rng.random() < .06 and '"' not in s:
            s += " ; comment, with if else endif endm"
        out.append(s)
    if late:
        out = out[:2] + out[3:3 + late] + [out[2]] + out[3 + late:]
    return "\n".join(out + list(tail)) + "\nend\n"
