#!/usr/bin/env python3
"""C06: segments, location counters, image (Segments.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ALIGN = {1: "byte", 2: "word", 4: "dword", 16: "para", 256: "page"}
CLS = {"code": ["'CODE'", "'MYCODE'"], "data": ["'DATA'", "'CONST'", "'FAR_DATA'"], "bss": ["'BSS'"], "undef": ["", "'XYZ'"], "stack": []}
SIMPLE = {  # model: directive -> (name, align, type, grouped, flat)
    "tiny": {".code": ("_TEXT", 2, "code", 1), ".data": ("_DATA", 2, "data", 1), ".const": ("CONST", 2, "data", 1), ".data?": ("_BSS", 2, "bss", 1)},
    "small": {".code": ("_TEXT", 2, "code", 0), ".data": ("_DATA", 2, "data", 1), ".const": ("CONST", 2, "data", 1), ".data?": ("_BSS", 2, "bss", 1)},
}


def num(rng, v):
    return str(v) if v < 10 or rng.random() < .5 else "0%Xh" % v


class Seggen:
    def __init__(self, rng, errors=False):
        self.rng = rng
        self.errors = errors
        self.model = rng.choice([None] * 5 + ["tiny", "small", "flat", "flat64"])
        self.use64 = self.model == "flat64"
        if self.use64:
            self.model = "flat"
        self.use32 = self.model == "flat" or (self.model is None and rng.random() < .3)
        self.w = 8 if self.use64 else 4 if self.use32 else 2
        self.d = []
        self.meta = []       # name, attributes text, directive
        self.lines = []
        self.prog = []
        self.stk = []
        self.labs = {}       # name -> (seg, index in lines)
        self.labloc = {}
        self.head = []
        self.how = rng.choice(["seq"] * 5 + ["dosseg", "alpha"]) if self.model != "flat" else "seq"

    def emit(self, x, text):
        self.lines.append(text)
        x["ln"] = len(self.lines)
        self.prog.append(x)

    def setup(self):
        rng = self.rng
        self.head = [".x64" if self.use64 else ".386" if self.use32 else rng.choice([".8086", ".286"])]
        if self.model:
            self.head.append(".model " + self.model)
        if self.how != "seq":
            self.head.append("." + self.how)
        if self.model == "flat":
            dirs = {".code": ("_TEXT", 4, "code", 1), ".data": ("_DATA", 4, "data", 1), ".const": ("CONST", 4, "data", 1)}
            if rng.random() < .3:
                dirs[".data?"] = ("_BSS", 4, "bss", 1)
            if self.use64:
                dirs = {k: (v[0], 16) + v[2:] for k, v in dirs.items()}
        elif self.model:
            dirs = SIMPLE[self.model]
        else:
            dirs = {}
        self.flat = self.model == "flat"
        for k in list(dirs):
            n, al, ty, g = dirs[k]
            self.d.append({"al": al, "ty": ty, "g": g, "flat": self.flat, "name": n})
            self.meta.append((n, None, k))
        nseg = rng.randint(1, 4) if not self.model else rng.randint(0, 2)
        names = rng.sample(["a", "bb", "s3", "zz", "_q", "Mid", "b2", "text1"], nseg)
        groups = rng.choice([[], [], [1], [1], [1, 2]]) if not self.model else []
        for n in names:
            ty = rng.choice(["code", "data", "data", "undef", "bss"])
            al = rng.choice([1, 1, 2, 4, 16, 16, 256] if rng.random() < .3 else [1, 2, 4, 16])
            at = []
            if al != 16 or rng.random() < .5:
                at.append(ALIGN[al])
            if self.use32 and self.model is None:
                at.append("use32")
            if rng.random() < .3:
                at.append("public")
            cls = rng.choice(CLS[ty])
            if cls:
                at.append(cls)
            rng.shuffle(at)
            if cls in at:
                at.remove(cls)
                at.append(cls)
            g = rng.choice([0] + groups) if groups else 0
            self.d.append({"al": al, "ty": ty, "g": g, "flat": self.flat, "name": n})
            self.meta.append((n, " ".join(at), None))
        self.groups = {g: [k for k in range(len(self.d)) if self.d[k]["g"] == g] for g in groups}
        self.groups = {g: m for g, m in self.groups.items() if m}
        order = sorted(range(len(self.d)), key=lambda k: self.d[k]["name"])
        for r, k in enumerate(order):
            self.d[k]["rank"] = r
        self.seen = set()
        self.open_order = []
        # .model creates some segments at once
        if self.model:
            for n in ("_TEXT", "_DATA"):
                for k in range(len(self.d)):
                    if self.d[k]["name"] == n:
                        self.open_order.append(k)
        self.loc = {k: 0 for k in range(len(self.d))}
        self.mx = {k: 0 for k in range(len(self.d))}

    def open(self):
        rng = self.rng
        k = rng.randrange(len(self.d))
        n, at, direc = self.meta[k]
        if direc:
            if len(self.stk) > 1:
                return
            self.stk = [k]
            self.emit({"op": "simp", "s": k + 1}, direc)
        else:
            if k in self.stk:
                return
            if self.stk and self.meta[self.stk[-1]][2] and rng.random() < .7:
                # leave a simplified segment by name first
                self.ends()
            first = k not in self.seen
            self.stk.append(k)
            txt = "%s segment %s" % (n, at if first or rng.random() < .2 else "")
            self.emit({"op": "open", "s": k + 1}, txt)
        self.seen.add(k)

    def ends(self, name=None):
        k = self.stk[-1]
        self.stk.pop()
        self.emit({"op": "ends", "s": k + 1}, "%s ends" % self.meta[k][0])

    def move(self, n):
        k = self.stk[-1]
        self.loc[k] += n
        self.mx[k] = max(self.mx[k], self.loc[k])

    def stmt(self):
        rng = self.rng
        r = rng.random()
        if not self.stk:
            if self.errors and rng.random() < .3:
                t = rng.choice([({"op": "put", "v": [{"k": "b", "v": 1}]}, "db 1"), ({"op": "align", "n": 2}, "even"), ({"op": "lab", "n": "zz%d" % len(self.lines)}, "zz%d label byte" % len(self.lines))])
                if t[0]["op"] != "lab":
                    self.emit(*t)
                    return
            self.open()
            return
        k = self.stk[-1]
        if r < .14:
            self.open()
        elif r < .27:
            if self.errors and rng.random() < .15:
                n = self.meta[k][0]
                t = rng.choice([n + "xq", n + "q9", n + "_1", "q8"])
                self.emit({"op": "ends", "s": -1}, t + " ends")
            elif self.errors and len(self.stk) > 1 and rng.random() < .3:
                j = self.stk[-2]
                self.emit({"op": "ends", "s": j + 1}, "%s ends" % self.meta[j][0])
            else:
                self.ends()
        elif r < .50:
            self.put()
        elif r < .66:
            n = "l%d" % (len(self.labs) + 1)
            self.labs[n] = k
            self.labloc[n] = self.loc[k]
            self.emit({"op": "lab", "n": n}, "%s label byte" % n)
        elif r < .74:
            a = rng.choice([2, 4, 4, 8, 16])
            self.emit({"op": "align", "n": a}, "even" if a == 2 and rng.random() < .5 else "align %d" % a)
            self.move(-self.loc[k] % a)
        elif r < .79:
            n = rng.choice([1, 2, 3, 5, 10, 20])
            self.emit({"op": "put", "v": [{"k": "q", "n": n}]}, "db %d dup (?)" % n if n > 1 or rng.random() < .5 else "db ?")
            self.move(n)
        elif r < .87:
            self.org()
        else:
            self.refs()

    def org(self):
        rng = self.rng
        k = self.stk[-1]
        r = rng.random()
        if r < .35:
            n = rng.choice([self.loc[k] + rng.randint(0, 9), rng.choice([4, 16, 0x100]) if self.mx[k] < 100 else self.loc[k], rng.randint(0, self.mx[k])])
            self.emit({"op": "org", "n": n}, "org " + num(rng, n))
            self.loc[k] = n
        elif r < .75:
            d = rng.choice([rng.randint(1, 12), -rng.randint(0, min(6, self.loc[k]))])
            self.emit({"op": "orgrel", "d": d}, "org $%s" % ("%+d" % d if d else ""))
            self.loc[k] += d
        else:
            c = [n for n, s in self.labs.items() if s == k]
            if not c:
                return
            n = rng.choice(c)
            d = rng.randint(0, 5)
            self.emit({"op": "orglab", "n": n, "d": d}, "org %s%s" % (n, "+%d" % d if d else ""))
            self.loc[k] = self.labloc[n] + d
        self.mx[k] = max(self.mx[k], self.loc[k])

    def put(self):
        rng = self.rng
        items, txt = [], []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            v = rng.randint(1, 255)
            if r < .6:
                items.append({"k": "b", "v": v})
                txt.append(num(rng, v))
                self.move(1)
            elif r < .75:
                n = rng.randint(1, 6)
                items += [{"k": "b", "v": v}] * n
                txt.append("%d dup (%s)" % (n, num(rng, v)))
                self.move(n)
            elif r < .85:
                items.append({"k": "q", "n": 1})
                txt.append("?")
                self.move(1)
            elif r < .93:
                n = rng.randint(1, 5)
                items.append({"k": "q", "n": n})
                txt.append("%d dup (?)" % n)
                self.move(n)
            else:
                s = rng.choice(["ab", "xyz", "Q"])
                items += [{"k": "b", "v": ord(ch)} for ch in s]
                txt.append("'%s'" % s)
                self.move(len(s))
        self.emit({"op": "put", "v": items}, "db " + ", ".join(txt))

    def refs(self):
        """filled in when all labels are known"""
        n = self.rng.randint(1, 2)
        self.emit({"op": "put", "v": [None] * n, "fix": True, "seg": self.stk[-1]}, None)
        self.move(n * self.w)

    def finish(self):
        rng = self.rng
        while self.stk and not (self.errors and rng.random() < .3):
            if self.meta[self.stk[-1]][2] and rng.random() < .7 and len(self.stk) == 1:
                self.stk = []
                self.auto = True
                break
            self.ends()
        labs = list(self.labs)
        pos = {x["n"]: i for i, x in enumerate(self.prog) if x["op"] == "lab"}
        for i, x in enumerate(self.prog):
            if not x.pop("fix", False):
                continue
            seg = x.pop("seg")
            txt = []
            for j in range(len(x["v"])):
                d = rng.choice([0, 0, 0, 1, 2, 7])
                ds = "+%d" % d if d else ""
                r = rng.random()
                e = t = None
                if labs and r < .5:
                    n = rng.choice(labs)
                    e, t = {"k": "lab", "n": n, "d": d}, rng.choice(["", "", "offset "]) + n + ds
                    if self.labs[n] != None and self.d[self.labs[n]]["g"] in self.groups and rng.random() < .4:
                        t = "g%d:%s%s" % (self.d[self.labs[n]]["g"], n, ds)
                    elif self.d[self.labs[n]]["g"] in self.groups and rng.random() < .3:
                        e = {"k": "seg", "n": n, "d": d}
                        t = "%s:%s%s" % (self.d[self.labs[n]]["name"], n, ds)
                elif r < .65:
                    e, t = {"k": "here", "d": d}, "$" + ds
                elif r < .9:
                    s = rng.choice(list(self.labs.values())) if labs else None
                    same = [n for n in labs if self.labs[n] == s]
                    if len(same) > 1:
                        n, m = rng.sample(same, 2)
                        e, t = {"k": "diff", "n": n, "m": m, "d": d}, "%s-%s%s" % (n, m, ds)
                else:
                    same = [n for n in labs if self.labs[n] == seg and pos[n] < i]
                    if same:
                        n = rng.choice(same)
                        e, t = {"k": "since", "n": n, "d": d}, "$-%s%s" % (n, ds)
                if e is None:
                    e, t = {"k": "here", "d": 0}, "$"
                x["v"][j] = {"k": "r", "w": self.w, "e": e}
                txt.append(t)
            self.lines[x["ln"] - 1] = "%s %s" % ({2: "dw", 4: "dd", 8: "dq"}[self.w], ", ".join(txt))

    def build(self):
        rng = self.rng
        self.auto = False
        self.setup()
        for _ in range(rng.randint(4, 28)):
            self.stmt()
        self.finish()
        left = bool(self.stk)
        glines = ["g%d group %s" % (g, ", ".join(self.d[k]["name"] for k in m)) for g, m in self.groups.items()]
        return glines, left


def gen(rng, errors=False):
    g = Seggen(rng, errors)
    glines, left = g.build()
    used = set(x["s"] - 1 for x in g.prog if x["op"] in ("open", "simp"))
    for gl in g.groups.values():
        if not set(gl) <= used:
            return gen(rng, errors)
    head = list(g.head)
    lines = list(g.lines)
    pre = []
    if glines:
        where = rng.choice(["first", "last"])
        if where == "first":
            pre = glines
        else:
            lines += glines if not left else []
            if left:
                return gen(rng, errors)
    text = "\n".join(head + pre + lines + ["end", ""])
    p = list(g.prog)
    # what is known before the first statement
    pro = [{"op": "know", "s": k + 1, "ln": 0} for k in g.open_order]
    if g.model:
        p.append({"op": "leave", "ln": 0})
    return {"d": g.d, "p": pro + p, "how": g.how}, text, len(head) + len(pre)


def same(img, out):
    return len(img) == len(out) and all(x == y or x == -1 for x, y in zip(img, out))


def compare(c, cases, what):
    results, tags = tlc_batch("SegBatch", [x[0] for x in cases])
    c.add_tlc(results, what)
    outs = tags["OUT"]

    def wrong(i, r):
        o = outs[i][0]
        nh = cases[i][2]
        if o["err"]:
            want = sorted((l, n) for l, n in o["err"])
            got = sorted(((m[1] - nh) if m[1] <= nh + len(cases[i][1].split("\n")) - 3 - nh + 1 else 0, m[3]) for m in r.errors)
            got = sorted((0 if m[1] - nh > max([x["ln"] for x in cases[i][0]["p"]] + [0]) else m[1] - nh, m[3]) for m in r.errors)
            if r.out is not None:
                return "accepted"
            return None if got == want else "errors %s, not %s" % (got, want)
        if not r.ok:
            return "rejected: %s" % r.errors[:2]
        return None if same(o["img"], r.out) else "image differs"

    def report(i, r):
        return {"expected": outs[i][0], "case": cases[i][0]}

    judge(c, [x[1] for x in cases], wrong, what, report)
    c.traces(len(cases), what)
    c.count(what + ": with errors", sum(1 for i in range(len(cases)) if outs[i][0]["err"]))


def show(x):
    if x["op"] == "put":
        v = x["v"][0]
        return {"b": "db %s" % v.get("v"), "q": "db %s dup (?)" % v.get("n"), "r": "dw $"}[v["k"]]
    return {"open": "s%s segment" % x.get("s"), "ends": "s%s ends" % x.get("s"), "align": "align %s" % x.get("n"),
            "org": "org %s" % x.get("n"), "orgrel": "org $%+d" % x.get("d", 0)}[x["op"]]


def model(c, n):
    """every program of the small model, replayed"""
    for g in (0, 1):
        r = tlc("SegModel", "SegModel%d%d" % (n, g), workers=4, heap="6g")
        c.add_tlc(r, "all programs of %d statements%s" % (n, ", grouped" if g else ""))
        progs = [v for _, _, v in r.prints]
        m = 60000 if THOROUGH else 6000
        if len(progs) > m:
            progs = c.rng.sample(progs, m)
        texts = []
        for v in progs:
            seen = set()
            ls = [".8086"] + (["g group s1, s2"] if g else [])
            for x in v["p"]:
                t = show(x)
                if x["op"] == "open" and x["s"] not in seen:
                    seen.add(x["s"])
                    t += " " + {1: "word", 2: "dword"}[x["s"]]
                ls.append(t)
            if g and len(seen) < 2:
                ls[1] = "g group s%d" % min(seen)
            texts.append("\n".join(ls + ["end", ""]))

        def wrong(i, r):
            if not r.ok:
                return "rejected: %s" % r.errors[:2]
            return None if same(progs[i]["img"], r.out) else "image differs"

        judge(c, texts, wrong, "model program", lambda i, r: {"expected": progs[i]}, per=200)
        c.traces(len(texts), "model programs")


def run(c):
    model(c, 8 if THOROUGH else 7)
    n = 700 if not THOROUGH else 6000
    compare(c, [gen(c.rng) for _ in range(n)], "random programs")
    compare(c, [gen(c.rng, True) for _ in range(n // 5)], "with nesting errors")


if __name__ == "__main__":
    main("C06", run)
