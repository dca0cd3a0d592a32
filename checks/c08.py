#!/usr/bin/env python3
"""C08: structures, unions, records (Struct.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

DIRS = [("db", 1), ("byte", 1), ("sbyte", 1), ("dw", 2), ("word", 2), ("dd", 4), ("dword", 4), ("sdword", 4), ("dq", 8), ("qword", 8),
        ("oword", 16), ("df", 6), ("dt", 10)]
HEADS = {16: [".386", "_T segment use16 'CODE'", "_T ends"], 32: [".386", ".model flat"], 64: [".x64", ".model flat, fastcall"]}


def num(rng, n):
    r = rng.random()
    v = rng.randrange(0, 100) if r < .5 else rng.getrandbits(8 * min(n, 8)) if r < .9 else (1 << 8 * min(n, 8)) - 1
    return rng.choice([str(v), "0%Xh" % v, "-%d" % (v % 128)]) if n <= 8 else str(v)


class F:
    """what the generator has to know of a field"""
    def __init__(self, name, n, cnt, arr, kind="int", t=None, sub=False, own=False):
        self.__dict__.update(name=name, n=n, cnt=cnt, arr=arr, kind=kind, t=t, sub=sub, own=own)


class T:
    def __init__(self, name, kind):
        self.name, self.kind, self.fields, self.org, self.big = name, kind, [], False, False


class Gen:
    def __init__(self, rng, errors):
        self.rng, self.errors = rng, errors
        self.bits = rng.choice([16, 32, 32, 64])
        self.lines = list(HEADS[self.bits])
        self.zp = 1
        self.stmts, self.at = [], []
        self.types, self.recs, self.labels, self.sizes = [], [], [], []
        self.k = 0

    def add(self, st, text):
        if st["op"] == "ask":
            st = dict({"pre": [], "post": [], "add": 0}, **st)
        self.lines.append(text)
        self.stmts.append(st)
        self.at.append(len(self.lines))

    def fresh(self, p="f"):
        self.k += 1
        return "%s%d_" % (p, self.k)

    # ---- declarations
    def data_text(self, n, kind):
        """-> (text, count, is an array)"""
        rng = self.rng
        v = (lambda: rng.choice(["1.5", "-2.25", "0.125", "100.0"])) if kind == "real" else (lambda: num(rng, n))
        r = rng.random()
        if r < .15:
            return "?", 1, False
        if r < .55:
            return v(), 1, False
        if r < .7:
            c = rng.choice([1, 2, 3, 5])
            return "%d dup (%s)" % (c, rng.choice(["?", v(), v()])), c, True
        if r < .78:
            return "2 dup (%s, 2 dup (%s))" % (v(), v()), 6, True
        if r < .88 or n != 1:
            k = rng.randint(2, 4)
            return ", ".join(v() for _ in range(k)), k, True
        k = rng.choice([1, 2, 3, 6])
        q = rng.choice("'\"")
        return q + "".join(rng.choice("abcXYZ 019") for _ in range(k)) + q, k, k > 1

    def field(self, t, al):
        rng = self.rng
        name = "" if rng.random() < .06 and not t.fields == [] else self.fresh()
        if self.errors and rng.random() < .04 and any(f.name for f in t.fields):
            name = rng.choice([f.name for f in t.fields if f.name])
        pool = [x for x in self.types if not x.org] + self.recs
        if pool and rng.random() < .25:
            ty = rng.choice(pool)
            if ty.big and al > 4:
                ty = None
        else:
            ty = None
        if ty:
            name = name or self.fresh()
            # own defaults different from the type's: then instances give all or nothing
            r = rng.random()
            arr, cnt, own = False, 1, False
            if r < .6:
                items, txt = [{"k": "list", "i": []}], rng.choice(["<>", "{}"])
            elif r < .75:
                cnt = rng.choice([1, 2, 3])
                items, txt, arr = [{"k": "dup", "n": cnt, "i": [{"k": "list", "i": []}]}], "%d dup (<>)" % cnt, True
            else:
                I, s = self.inst_list(ty, False)
                items, txt, own = [{"k": "list", "i": I}], s, bool(I)
            f = F(name, 0, cnt, arr, t=ty, own=own)
            self.add({"op": "tfield", "name": name, "type": ty.name, "arr": arr, "items": items}, "%s %s %s" % (name, ty.name, txt))
            t.big |= ty.big
        else:
            if rng.random() < .1:
                d, n = rng.choice([("real4", 4), ("real8", 8)])
                kind = "real"
            else:
                d, n = rng.choice(DIRS if al <= 4 else [x for x in DIRS if x[1] not in (6, 10)])
                kind = "int"
            if n in (6, 10):
                t.big = True
            txt, cnt, arr = self.data_text(n, kind)
            f = F(name, n, cnt, arr, kind)
            self.add({"op": "field", "name": name, "n": n, "kind": kind, "text": txt, "arr": arr}, "%s %s %s" % (name, d, txt))
        if not any(g.name == name and name for g in t.fields):
            t.fields.append(f)

    def body(self, t, al, depth):
        rng = self.rng
        for _ in range(rng.randint(1, 5 if depth == 0 else 3)):
            r = rng.random()
            if r < .1 and t.fields:
                n = rng.choice([2, 4, 8, 16])
                self.add({"op": "align", "n": n}, "align %d" % n if n > 2 or rng.random() < .5 else "even")
            elif r < .3 and depth < 2:
                u = rng.random() < .5
                name = self.fresh() if rng.random() < .5 else ""
                s = T("", "union" if u else "struct")
                self.add({"op": "sub", "name": name, "u": u}, ("union " if u else "struct ") + name)
                self.body(s, al, depth + 1)
                self.add({"op": "close"}, "ends")
                t.big |= s.big
                t.fields.append(F(name, 0, 1, False, t=s, sub=True))
            elif r < .35 and depth == 0 and t.kind == "struct" and t.fields:
                n = rng.choice([0, 1, 8, 20, 40, -1, -2, -8, -13])
                self.add({"op": "org", "n": n}, "org %d" % n)
                t.org = True
                if rng.random() < .5:
                    name = self.fresh()
                    self.add({"op": "field", "name": name, "n": 1, "kind": "int", "text": "?", "arr": False}, name + " db ?")
                    t.fields.append(F(name, 1, 1, False, "int"))
                self.field(t, al)
            else:
                self.field(t, al)
        if not t.fields:
            self.field(t, al)

    def struct(self):
        rng = self.rng
        u = rng.random() < .25
        name = self.fresh("T")
        t = T(name, "union" if u else "struct")
        if rng.random() < .15:
            self.zp = rng.choice([1, 2, 4, 8])
            self.lines.append("option fieldalign:%d" % self.zp)
        al = rng.choice([0, 0, 1, 2, 4, 4, 8, 16, 32])
        self.add({"op": "open", "name": name, "u": u, "al": al or self.zp},
                 "%s %s %s" % (name, "union" if u else rng.choice(["struct", "struc", "STRUCT"]), al or ""))
        self.body(t, al or self.zp, 0)
        self.add({"op": "close"}, name + " ends")
        self.types.append(t)
        if t.org:
            self.sizes.append(name)

    def record(self):
        rng = self.rng
        name = self.fresh("R")
        t = T(name, "record")
        left = rng.choice([8, 8, 16, 16, 32, 32, 64, 64, 128])
        t.bytes = 1
        fs, txt, tot = [], [], 0
        while left and len(fs) < 6 and (not fs or rng.random() < .85):
            w = rng.randint(1, min(left, rng.choice([4, 8, 33, 63])))
            left -= w
            tot += w
            n = self.fresh("b")
            v = rng.choice([None, None, 0, 1, (1 << w) - 1, rng.getrandbits(w)])
            fs.append({"name": n, "size": w, "def": str(v or 0)})
            txt.append("%s:%d" % (n, w) + ("" if v is None else rng.choice(["=%d", " = 0%Xh"]) % v))
            t.fields.append(F(n, w, 1, False))
        self.add({"op": "record", "name": name, "fields": fs}, "%s record %s" % (name, ", ".join(txt)))
        t.tot = tot
        self.recs.append(t)

    # ---- values
    def value(self, f):
        """-> (model, text)"""
        rng = self.rng
        if rng.random() < .25:
            return {"k": "def"}, ""
        if f.sub or (f.t and not f.arr):
            I, s = self.inst_list(f.t, f.own)
            return {"k": "list", "i": I}, s
        if f.t:
            k = rng.randint(1, f.cnt + (1 if self.errors and rng.random() < .1 else 0))
            es = [self.inst_list(f.t, False) for _ in range(k)]
            if rng.random() < .3 and k > 1:
                return {"k": "list", "i": [{"k": "dup", "n": k, "i": [{"k": "list", "i": es[0][0]}]}]}, "<%d dup (%s)>" % (k, es[0][1])
            return {"k": "list", "i": [{"k": "list", "i": e[0]} for e in es]}, "<" + ", ".join(e[1] for e in es) + ">"
        v = (lambda: rng.choice(["1.5", "-2.25", "0.125"])) if f.kind == "real" else (lambda: num(rng, f.n))
        if not f.arr:
            x = rng.choice([v(), v(), "?"])
            if f.n == 1 and f.kind == "int" and rng.random() < .2:
                x = "'z'"
            return {"k": "text", "t": x}, x
        k = rng.randint(1, f.cnt + (1 if self.errors and rng.random() < .15 else 0))
        r = rng.random()
        if r < .4:
            x = ", ".join(v() for _ in range(k))
            return {"k": "text", "t": x}, rng.choice(["<%s>", "{%s}"]) % x
        if r < .7 or f.n > 1:
            x = "%d dup (%s)" % (k, v())
            return {"k": "text", "t": x}, rng.choice(["%s", "<%s>"]) % x
        x = "'" + "".join(rng.choice("abcXYZ 019") for _ in range(k)) + "'"
        return {"k": "text", "t": x}, x if rng.random() < .7 else "<%s>" % x

    def inst_list(self, t, full):
        """the list of an instance of t -> ([model], text)"""
        rng = self.rng
        fs = t.fields[:1] if t.kind == "union" else t.fields
        I, X = [], []
        k = len(fs) if full else rng.randint(0, len(fs))
        for f in fs[:k]:
            if t.kind == "record":
                if rng.random() < .3 and not full:
                    m, x = {"k": "def"}, ""
                else:
                    v = rng.choice([0, 1, (1 << f.n) - 1, rng.getrandbits(f.n)]) % 2 ** 63
                    if self.errors and rng.random() < .06 and f.n < 62:
                        v += 1 << f.n
                    x = rng.choice(["%d", "0%Xh"]) % v
                    m = {"k": "text", "t": x}
            else:
                m, x = self.value(f)
                while full and m["k"] == "def":
                    m, x = self.value(f)
            I.append(m)
            X.append(x)
        if X and X[-1] == "" and len(X) == 1 and not full:
            I, X = [], []
        if self.errors and rng.random() < .03:
            I = I + [{"k": "def"}] * (len(fs) - len(I)) + [{"k": "text", "t": "1"}]
            X = X + [""] * (len(fs) - len(X)) + ["1"]
        return I, rng.choice(["<%s>", "<%s>", "{%s}"]) % rng.choice([", ", ","]).join(X)

    def instance(self):
        rng = self.rng
        t = rng.choice(self.types * 2 + self.recs)
        if t.org and not (self.errors and rng.random() < .3):
            return
        name = self.fresh("v")
        member = ""
        if t.kind == "union" and rng.random() < .4 and t.fields:
            f = rng.choice(t.fields)
            if f.name:
                member = f.name
                t = type("U", (), dict(name=t.name, kind="union", fields=[f], org=t.org))
        r = rng.random()
        n = 1
        if r < .6 or member:
            I, s = self.inst_list(t, False)
            items = [{"k": "list", "i": I}]
        elif r < .8:
            I, s = self.inst_list(t, False)
            n = rng.choice([1, 2, 3])
            items, s = [{"k": "dup", "n": n, "i": [{"k": "list", "i": I}]}], "%d dup (%s)" % (n, s)
        else:
            es = [self.inst_list(t, False) for _ in range(2)]
            items, s = [{"k": "list", "i": e[0]} for e in es], ", ".join(e[1] for e in es)
        self.add({"op": "inst", "name": name, "type": t.name, "member": member, "items": items},
                 "%s %s %s" % (name, t.name + ("." + member if member else ""), s))
        self.labels.append((name, next((x for x in self.types + self.recs if x.name == t.name))))

    def ask(self):
        rng = self.rng
        if self.recs and rng.random() < .3:
            t = rng.choice(self.recs)
            w = rng.choice(["mask", "width", "shift", "size", "width", "mask"])
            n = 4 if t.tot <= 32 else 8
            if w == "mask" and t.tot > 64:
                w = "width"
            path = [rng.choice(t.fields).name] if w == "shift" or (w != "size" and rng.random() < .7) else []
            x = {"mask": "mask ", "width": "width ", "shift": "", "size": "sizeof "}[w] + (path[0] if path else t.name)
            self.add({"op": "ask", "what": w, "of": t.name, "path": path, "n": n}, ("dd " if n == 4 else "dq ") + x)
            return
        lab = self.labels and rng.random() < .45
        of, t = rng.choice(self.labels) if lab else (lambda t: (t.name, t))(rng.choice(self.types))
        if t.kind == "record":
            return
        path, x = [], t
        while rng.random() < (.95 if not path else .6) and x is not None and x.kind != "record":
            fs, todo = [], list(x.fields)
            while todo:
                f = todo.pop()
                if f.name:
                    fs.append(f)
                elif f.sub:
                    todo += f.t.fields
            if not fs:
                break
            f = rng.choice(fs)
            path.append(f.name)
            x = f.t
        if self.errors and rng.random() < .03:
            path = path[:-1] + ["nonesuch"]
        if path and self.bits != 64 and rng.random() < .4 and path[-1] != "nonesuch":
            return self.code(of, t, path, lab, f)
        w = rng.choice(["off", "off", "off", "size", "type", "len"] if path else ["size", "type", "len" if lab else "size"])
        if path and path[-1] == "nonesuch":
            w = "off"
        p = ".".join([of] + path)
        e = {"off": p, "size": "sizeof " + p, "type": "type " + p, "len": "lengthof " + p}[w]
        if w == "off" and lab and self.bits == 16:
            e = "dw offset " + p
            self.add({"op": "ask", "what": w, "of": of, "path": path, "n": 2}, e)
            return
        n = 8 if lab and self.bits == 64 and w == "off" else 4
        self.add({"op": "ask", "what": w, "of": of, "path": path, "n": n}, ("dd " if n == 4 else "dq ") + e)

    def code(self, of, t, path, lab, f):
        """the offset as displacement of an instruction"""
        rng = self.rng
        p = ".".join(path)
        n, reg, base = (2, 0x87, "bx") if self.bits == 16 else (4, 0x83, "ebx")
        acc = "ax" if n == 2 else "eax"
        a = dict(op="ask", what="off", of=of, path=path, n=n)
        if lab:
            if rng.random() < .5:
                self.add(dict(a, pre=[0x8d, 6 if n == 2 else 5]), "lea %s, %s.%s" % (acc, of, p))
            else:
                k = rng.randint(1, 9)
                self.add(dict(a, pre=[0x8d, reg], add=k), "lea %s, %s.%s[%s+%d]" % (acc, of, p, base, k))
            return
        k = 0x1000
        r = rng.random()
        if r < .25:
            self.add(dict(a, pre=[0x8d, reg], add=k), "lea %s, [%s+%d].%s.%s" % (acc, base, k, of, p))
        elif r < .45:
            self.add(dict(a, pre=[0x8d, reg], add=k), "lea %s, [%s+%d+%s.%s]" % (acc, base, k, of, p))
        elif r < .6:
            self.add(dict(a, pre=[0x8d, reg], add=k), "lea %s, (%s ptr [%s+%d]).%s" % (acc, of, base, k, p))
        elif r < .75:
            self.lines.append("assume %s:ptr %s" % (base, of))
            self.add(dict(a, pre=[0x8d, reg], add=k), "lea %s, [%s+%d].%s" % (acc, base, k, p))
            self.lines.append("assume %s:nothing" % base)
        elif r < .85:
            self.add(dict(a, pre=[0xb8]), "mov %s, %s.%s" % (acc, of, p))
        elif f.kind == "int" and f.t is None and f.n in (1, 2, 4):
            o = [0x66] if {2: 4, 4: 2}[n] == f.n else []
            self.add(dict(a, pre=o + [0xc6 if f.n == 1 else 0xc7, reg], add=k, post=[7] + [0] * (f.n - 1)), "mov [%s+%d].%s.%s, 7" % (base, k, of, p))

    def program(self):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            (self.record if rng.random() < .35 else self.struct)()
        if not self.types:
            self.struct()
        self.lines.append("_T segment use16 'CODE'" if self.bits == 16 else ".code")
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if r < .12:
                (self.record if rng.random() < .4 else self.struct)()
            elif r < .5:
                self.instance()
            else:
                self.ask()
        for name in self.sizes:
            self.add({"op": "ask", "what": "size", "of": name, "path": [], "n": 4}, "dd sizeof " + name)
        self.lines.append("db 0EEh")
        if self.bits == 16:
            self.lines.append("_T ends")
        self.lines.append("end")
        return {"stmts": self.stmts}, self.lines, self.at


def wrong_for(mods):
    def wrong(i, r):
        img, errs = mods[i]
        got = {m[1] for m in r.errors}
        if errs:
            return None if got == errs else "errors at lines %s instead of %s" % (sorted(got), sorted(errs))
        if not r.ok:
            return "error messages for a valid module: %s" % (r.msgs[:2],)
        if r.out != img:
            k = next((k for k in range(min(len(img), len(r.out))) if img[k] != r.out[k]), min(len(img), len(r.out)))
            return "image differs at %d: %s instead of %s" % (k, r.out[k:k + 8].hex(), img[k:k + 8].hex())
    return wrong


def replay(rng, v, q):
    """source lines of a type of the model, and the image of the questions about it"""
    stack, L, tops = [], [], []
    leaves = []
    cnt = 0
    for h in v["h"]:
        if h["e"] == "open":
            if not stack:
                L.append("S%d %s %d" % (q, "union" if h["u"] else "struct", h["a"]))
                stack.append("S%d" % q)
            else:
                n = rng.choice(["", "n%d" % cnt])
                L.append(("union " if h["u"] else "struct ") + n)
                stack.append(stack[-1] + ("." + n if n else ""))
        elif h["e"] == "close":
            stack.pop()
            L.append("ends" if stack else "S%d ends" % q)
        elif h["e"] == "align":
            L.append("align 4")
        else:
            d = {1: "db", 2: "dw", 4: "dd", 8: "dq"}[h["s"]]
            val = sum(cnt << 8 * k for k in range(h["s"]))
            L.append("f%d %s %s" % (cnt, d, "%d dup (%d)" % (h["n"], val) if h["n"] > 1 else val))
            leaves.append(stack[-1] + ".f%d" % cnt)
        if h["e"] != "close":
            cnt += 1
    img = b""
    for p, o in zip(leaves, v["leaves"]):
        L.append("dw " + p)
        img += o.to_bytes(2, "little")
    L.append("dw S%d, sizeof S%d" % (q, q))
    img += v["size"].to_bytes(2, "little") * 2
    L.append("x%d S%d <>" % (q, q))
    return L, img + bytes(v["img"])


def exhaustive(c, rng):
    k = 5 if THOROUGH else 4
    r = tlc("StructModel", "StructModel%d" % k, workers=8 if THOROUGH else 4, timeout=1500, heap="6g")
    c.add_tlc(r, "every declaration of up to %d statements" % k)
    pool = [v for _, _, v in r.prints]
    rng.shuffle(pool)
    if not THOROUGH:
        pool = pool[:8000]
    texts, mods = [], []
    for j in range(0, len(pool), 40):
        L, img = [".386", ".model flat", ".code"], b""
        for q, v in enumerate(pool[j:j + 40]):
            l, b = replay(rng, v, q)
            L += l
            img += b
        texts.append("\n".join(L + ["db 0EEh", "end"]) + "\n")
        mods.append((img + b"\xee", set()))
    judge(c, texts, wrong_for(mods), "exhaustive")
    c.traces(len(pool), "every small declaration: offsets, size, instance")


def main_(c):
    rng = c.rng
    exhaustive(c, rng)
    for rnd in range(10 if THOROUGH else 1):
        progs = [Gen(rng, rng.random() < .25).program() for _ in range(3000 if THOROUGH else 700)]
        rs, tags = tlc_batch("StructBatch", [p[0] for p in progs], timeout=900)
        c.add_tlc(rs, "seeded programs")
        mods, texts = [], []
        for j, (cs, src, at) in enumerate(progs):
            v = tags["V"][j][0]
            if v["open"]:
                c.count("dropped: unspecified")
                continue
            errs = {at[p - 1] for p in v["errs"]}
            c.count("programs with errors" if errs else "programs without errors")
            mods.append((bytes(v["img"]) + b"\xee", errs))
            texts.append("\n".join(src) + "\n")
        judge(c, texts, wrong_for(mods), "seeded")
        c.traces(len(texts), "seeded programs")
        if rnd == 0:
            c.sample({"module": texts[0]})
    c.assumptions += ["fields of 6 and 10 bytes only under alignments up to 4 (their natural alignment is not a power of two)",
                      "a structure field with own defaults is overridden completely or not at all"]


if __name__ == "__main__":
    main("C08", main_)
