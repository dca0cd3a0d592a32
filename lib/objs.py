"""Object files: readers of COFF and ELF, and modules of labels and references (Objects.tla, Linker.tla)."""
import struct


class Bad(Exception):
    pass


def cstr(b, at):
    e = b.find(b"\0", at)
    if at < 0 or at >= len(b) or e < 0:
        raise Bad("string at %d" % at)
    return b[at:e].decode("latin1")


def le8(v):
    return list((v & (1 << 64) - 1).to_bytes(8, "little"))


def coff(b):
    if len(b) < 20:
        raise Bad("no header")
    mach, nsec, _, psym, nsym, opt, _ = struct.unpack_from("<HHIIIHH", b)
    fmt = {0x14c: "coff32", 0x8664: "coff64"}.get(mach)
    if not fmt or opt:
        raise Bad("machine %x, optional header %d" % (mach, opt))
    if psym + 18 * nsym > len(b):
        raise Bad("symbol table outside")
    strs = b[psym + 18 * nsym:] if nsym else b""
    if nsym and (len(strs) < 4 or struct.unpack_from("<I", strs)[0] != len(strs)) and len(strs) != 0:
        if struct.unpack_from("<I", strs)[0] > len(strs):
            raise Bad("string table of %d bytes" % len(strs))
    syms, index, n = [], {}, 0
    while n < nsym:
        at = psym + 18 * n
        raw, val, sec, typ, cls, aux = struct.unpack_from("<8sIhHBB", b, at)
        name = cstr(strs, struct.unpack_from("<I", raw, 4)[0]) if raw[:4] == b"\0\0\0\0" else raw.rstrip(b"\0").decode("latin1")
        index[n] = len(syms) + 1
        ext = cls in (2, 105)
        common = ext and sec == 0 and val > 0
        if sec > nsec:
            raise Bad("symbol %s in section %d" % (name, sec))
        syms.append({"name": name, "sec": -2 if common else sec if sec >= -1 else -1, "val": le8(val), "g": int(ext), "sz": val if common else 0, "w": int(cls == 105), "alt": 0})
        if cls == 105:
            if aux != 1 or n + 1 >= nsym:
                raise Bad("weak external %s without its record" % name)
            syms[-1]["alt"] = struct.unpack_from("<I", b, at + 18)[0]
        n += 1 + aux
    if n != nsym:
        raise Bad("auxiliary records")
    for y in syms:
        if y["w"]:
            y["alt"] = index.get(y["alt"], 0)
    secs = []
    for k in range(nsec):
        nm, vs, va, size, pdata, prel, pln, nrel, nln, ch = struct.unpack_from("<8sIIIIIIHHI", b, 20 + 40 * k)
        nm = nm.split(b"\0")[0].decode("latin1")
        if nm.startswith("/"):
            nm = cstr(strs, int(nm[1:]))
        bss = bool(ch & 0x80)
        if not bss and pdata + size > len(b):
            raise Bad("data of %s outside" % nm)
        if prel + 10 * nrel > len(b):
            raise Bad("relocations of %s outside" % nm)
        rel = []
        for j in range(nrel):
            off, sym, t = struct.unpack_from("<IIH", b, prel + 10 * j)
            rel.append({"off": off - va, "t": t, "sym": index.get(sym, 0), "add": []})
        secs.append({"name": nm, "size": size, "data": [] if bss else list(b[pdata:pdata + size]), "rel": rel, "ch": ch, "ln": [pln, nln]})
    return {"fmt": fmt, "secs": secs, "syms": syms}


def elf(b):
    if b[:4] != b"\x7fELF" or b[5] != 1:
        raise Bad("no ELF header")
    w = {1: 32, 2: 64}.get(b[4])
    if w == 32:
        typ, mach, ver, ent, ph, sh, fl, eh, phs, phn, shs, shn, shx = struct.unpack_from("<HHIIIIIHHHHHH", b, 16)
        get = lambda k: struct.unpack_from("<IIIIIIIIII", b, sh + k * shs)
    else:
        typ, mach, ver, ent, ph, sh, fl, eh, phs, phn, shs, shn, shx = struct.unpack_from("<HHIQQQIHHHHHH", b, 16)
        get = lambda k: struct.unpack_from("<IIQQQQIIQQ", b, sh + k * shs)
    if typ != 1 or mach != {32: 3, 64: 62}[w] or sh + shn * shs > len(b):
        raise Bad("header: type %d machine %d" % (typ, mach))
    H = [get(k) for k in range(shn)]
    body = lambda h: b"" if h[1] == 8 else b[h[4]:h[4] + h[5]]
    for h in H:
        if h[1] not in (0, 8) and h[4] + h[5] > len(b):
            raise Bad("section outside")
    names = body(H[shx])
    secs, number = [], {}
    for k, h in enumerate(H):
        if h[1] in (1, 8):
            number[k] = len(secs) + 1
            secs.append({"name": cstr(names, h[0]), "size": h[5], "data": list(body(h)), "rel": []})
    syms = []
    for h in H:
        if h[1] == 2:
            st, strs = body(h), body(H[h[6]])
            n = len(st) // h[9]
            for q in range(n):
                if w == 32:
                    nm, val, sz, info, oth, shi = struct.unpack_from("<IIIBBH", st, q * h[9])
                else:
                    nm, info, oth, shi, val, sz = struct.unpack_from("<IBBHQQ", st, q * h[9])
                g = info >> 4
                if (g == 0) != (q < h[7]):
                    raise Bad("symbol %d on the wrong side of sh_info" % q)
                sec = 0 if shi == 0 else -1 if shi == 0xfff1 else -2 if shi == 0xfff2 else number.get(shi, -1)
                syms.append({"name": cstr(strs, nm), "sec": sec, "val": le8(val), "g": int(g > 0 and q > 0), "sz": sz if sec == -2 else 0, "w": int(g == 2), "alt": 0})
    for h in H:
        if h[1] in (4, 9):
            if h[7] not in number:
                raise Bad("relocations of section %d" % h[7])
            S = secs[number[h[7]] - 1]
            d = body(h)
            for q in range(len(d) // h[9]):
                if w == 32:
                    off, info = struct.unpack_from("<II", d, q * h[9])
                    sym, t, add = info >> 8, info & 255, 0
                else:
                    off, info, add = struct.unpack_from("<QQq", d, q * h[9])
                    sym, t = info >> 32, info & 0xffffffff
                if (h[1] == 4) != (w == 64):
                    raise Bad("kind of relocation section")
                S["rel"].append({"off": off, "t": t, "sym": sym + 1, "add": le8(add) if w == 64 else []})
    return {"fmt": "elf%d" % w, "secs": secs, "syms": syms}


READ = {"coff32": coff, "coff64": coff, "elf32": elf, "elf64": elf}
OPT = {"coff32": "-coff", "coff64": "-win64", "elf32": "-elf", "elf64": "-elf64"}
EXT = {"coff32": "obj", "coff64": "obj", "elf32": "obj", "elf64": "obj"}
SECN = {"coff": {".code": ".text", ".data": ".data", ".const": ".rdata", ".data?": ".bss"}, "elf": {".code": ".text", ".data": ".data", ".const": ".rodata", ".data?": ".bss"}}

# text, bytes in front of the field, size of the field, kind, bytes behind it
M64 = [("mov ecx, dword ptr %s", "8b0d", 4, "rel", ""), ("lea rax, %s", "488d05", 4, "rel", ""), ("mov dword ptr %s, 12345678h", "c705", 4, "rel", "78563412"),
       ("mov byte ptr %s, 5", "c605", 4, "rel", "05"), ("cmp word ptr %s, 1234h", "66813d", 4, "rel", "3412"), ("add qword ptr %s, 7", "488305", 4, "rel", "07"),
       ("movaps xmm1, xmmword ptr %s", "0f280d", 4, "rel", ""), ("push qword ptr %s", "ff35", 4, "rel", ""), ("imul eax, dword ptr %s, 1000", "6905", 4, "rel", "e8030000"),
       ("call qword ptr %s", "ff15", 4, "rel", ""), ("jmp qword ptr %s", "ff25", 4, "rel", ""), ("mov r11, qword ptr %s", "4c8b1d", 4, "rel", ""),
       ("mov rax, offset %s", "48b8", 8, "abs", ""), ("mov eax, offset %s", "b8", 4, "abs", ""), ("mov dword ptr [rbx], offset %s", "c703", 4, "abs", ""),
       ("mov ecx, dword ptr [rbx+%s]", "8b8b", 4, "abs", ""), ("shl dword ptr %s, 3", "c125", 4, "rel", "03"), ("mov qword ptr %s, 11223344h", "48c705", 4, "rel", "44332211")]
M32 = [("mov ecx, dword ptr %s", "8b0d", 4, "abs", ""), ("mov eax, dword ptr %s", "a1", 4, "abs", ""), ("mov dword ptr %s, 12345678h", "c705", 4, "abs", "78563412"),
       ("lea edx, %s", "8d15", 4, "abs", ""), ("mov byte ptr %s, 5", "c605", 4, "abs", "05"), ("cmp word ptr %s, 1234h", "66813d", 4, "abs", "3412"),
       ("mov ecx, dword ptr [ebx*4+%s]", "8b0c9d", 4, "abs", ""), ("push offset %s", "68", 4, "abs", ""), ("mov eax, offset %s", "b8", 4, "abs", ""),
       ("mov dword ptr [ebx], offset %s", "c703", 4, "abs", ""), ("jmp dword ptr %s", "ff25", 4, "abs", ""), ("call dword ptr %s", "ff15", 4, "abs", ""),
       ("mov al, byte ptr %s", "a0", 4, "abs", ""), ("add dword ptr %s, offset v0", None, 0, "", "")][:-1]
JUMP = [("call %s", "e8", 4, "rel", ""), ("jmp %s", "e9", 4, "rel", ""), ("jz %s", "0f84", 4, "rel", ""), ("jg %s", "0f8f", 4, "rel", "")]
LANGS = ["", "", "c", "stdcall", "pascal", "basic", "fortran"]


class Gen:
    """a module; decl: how much of the declarations varies"""
    def __init__(self, rng, fmt, decl=False):
        self.r, self.fmt, self.mode, self.decl = rng, fmt, int(fmt[-2:]), decl
        r = rng
        self.dec = {"c": "on", "std": "full"}
        self.opts = []
        if decl and r.random() < .3:
            o, k, v = r.choice([("-zcw", "c", "off"), ("-zt0", "std", "none"), ("-zt1", "std", "half"), ("-zt2", "std", "full")])
            self.opts, self.dec[k] = [o], v
        self.deflang = r.choice(["c", "stdcall", "pascal", "syscall"]) if self.mode == 32 and decl else "c" if self.mode == 32 else "fastcall"
        self.procpub = r.choice(["", "", "public", "private"]) if decl else ""
        kinds = [".code", ".data"] + r.sample([".const", ".data?"], r.randint(0, 2)) + (["custom"] if r.random() < .5 else [])
        fam = fmt[:4].rstrip("36")
        self.secs = []
        for k in kinds:
            if k == "custom":
                nm = r.choice(["_more", "zz$a", "averylongsegmentname"])
                self.secs.append({"k": k, "name": nm, "code": r.random() < .5, "bss": False, "items": [], "src": []})
            else:
                self.secs.append({"k": k, "name": SECN[fam][k], "code": k == ".code", "bss": k == ".data?", "items": [], "src": []})
        self.decls = []
        self.build()

    def lang(self):
        """(keyword, language)"""
        l = self.r.choice(LANGS + (["syscall", "fastcall"] if self.mode == 32 else [])) if self.decl else ""
        return l, l or self.deflang

    def name(self, p):
        n = len(self.decls)
        s = "%s%d" % (p, n)
        return s + ("_long_name_here" * 9)[:self.r.choice([0, 0, 0, 2, 15, 15, 8 - len(s), 7 - len(s), 9 - len(s), 80])]

    def add(self, **d):
        d.setdefault("proc", False)
        d.setdefault("par", 0)
        d.setdefault("sec", 0)
        d.setdefault("item", 0)
        d.setdefault("pub", False)
        d.setdefault("sz", 0)
        d.setdefault("used", False)
        d.setdefault("val", [])
        d.setdefault("alt", 0)
        d.setdefault("al", 1)
        d["up"] = d["n"].upper()
        self.decls.append(d)
        return len(self.decls)

    def build(self):
        r = self.r
        self.head, self.tail, self.types = [], [], {}
        w = self.mode // 8
        # declarations of other modules' symbols
        for _ in range(r.randint(1, 4) if not self.decl else r.randint(2, 8)):
            kw, lang = self.lang()
            k = r.choice(["extern", "extern", "externdef", "comm", "proto"])
            if k == "proto":
                n = self.name("p")
                ps = [r.choice(["byte", "word", "dword"] + (["qword"] if self.mode == 64 else [])) for _ in range(r.randint(0, 4))]
                self.head.append("%s proto%s%s" % (n, " " + kw if kw else "", " " + ", ".join(":" + q for q in ps) if ps else ""))
                self.add(n=n, lang=lang, kind="proto", proc=True, par=w * len(ps), code=True, used=False)
            elif k == "comm":
                n = self.name("m")
                sz, t = r.choice([(1, "byte"), (2, "word"), (4, "dword"), (8, "qword")])
                cnt = r.choice([1, 1, 3, 10])
                self.head.append("comm %s%s:%s%s" % (kw + " " if kw else "", n, t, ":%d" % cnt if cnt > 1 else ""))
                self.add(n=n, lang=lang, kind="comm", sz=sz * cnt, al=sz, code=False)
            else:
                n = self.name("x")
                code = r.random() < .4
                self.head.append("%s %s%s:%s" % (k, kw + " " if kw else "", n, "near" if code else r.choice(["byte", "dword", "qword"])))
                self.add(n=n, lang=lang, kind=k, code=code)
        # weak externals: with another module's symbol for default
        for _ in range(r.choice([0, 0, 1, 2])):
            c = [k + 1 for k, d in enumerate(self.decls) if d["kind"] == "extern"]
            if c:
                a = r.choice(c)
                kw, lang = self.lang()
                n = self.name("w")
                A = self.decls[a - 1]
                self.head.append("extern %s%s(%s):%s" % (kw + " " if kw else "", n, A["n"], "near" if A["code"] else "dword"))
                self.add(n=n, lang=lang, kind="weak", code=A["code"], alt=a)
        # constants visible to other modules
        self.consts = []
        if self.decl and r.random() < .4:
            for _ in range(r.randint(1, 2)):
                n = self.name("cn")
                v = r.choice([0, 1, 255, 65536, 0x7fffffff])
                d = self.add(n=n, lang=self.deflang, kind="abs", pub=True, code=None, val=le8(v))
                self.consts.append(n)
                e = "%s equ %d" % (n, v) if r.random() < .6 else "%s = %d" % (n, v)
                a, b = ("public " + n, e)
                self.head += [a, b] if r.random() < .5 else [b, a]
        # labels
        for q, S in enumerate(self.secs):
            for _ in range(r.randint(1, 4)):
                kw, lang = self.lang()
                n = self.name("v" if not S["code"] else "f")
                proc = S["code"] and self.decl and r.random() < .6
                d = self.add(n=n, lang=lang, kind="label", proc=False, sec=q + 1, item=0, code=S["code"])
                D = self.decls[d - 1]
                D["text"] = None
                how = r.choice(["", "pub", "pub", "pub late", "externdef", "externdef late"] if self.decl else ["", "", "pub"])
                if proc:
                    ps = [r.choice(["byte", "word", "dword"]) for _ in range(r.randint(0, 3))]
                    vis = r.choice(["", "", "public", "private"])
                    D["proc"], D["par"] = True, w * len(ps)
                    if self.mode == 32 and lang == "fastcall":
                        ps, D["par"] = [], 0
                    if lang == "syscall" and False:
                        pass
                    D["text"] = "%s proc%s%s%s" % (n, " " + kw if kw else "", " " + vis if vis else "", " " + ", ".join("%s_%d:%s" % (n, j, t) for j, t in enumerate(ps)) if ps else "")
                    D["pub"] = vis == "public" or vis == "" and self.procpub != "private"
                    how = ""
                if how:
                    D["pub"] = True
                    if how == "externdef late":     # the language is that of the definition
                        kw, D["lang"] = "", self.deflang
                    l = "%s %s%s" % ("public" if "pub" in how else "externdef", kw + " " if kw else "", n)
                    if "externdef" in how:
                        l += ":near" if S["code"] else ":@" + n
                    (self.tail if "late" in how else self.head).append(l)
                else:
                    if not proc:
                        D["lang"] = self.deflang
        labels = [k + 1 for k, d in enumerate(self.decls) if d["kind"] == "label"]
        # items: where the labels stand
        for q, S in enumerate(self.secs):
            mine = [k for k in labels if self.decls[k - 1]["sec"] == q + 1]
            n = max(r.randint(3, 9), len(mine))
            for j in range(n):
                if mine and (r.random() < .5 or n - j <= len(mine)):
                    D = self.decls[mine[0] - 1]
                    mine.pop(0)
                    D["item"] = len(S["items"]) + 1
                    self.item(S, q + 1, D)
                else:
                    self.item(S, q + 1, None)

    def target(self, S, q, code):
        """a declaration to refer to, and an addend; code: as the target of a jump"""
        r = self.r
        c = [k + 1 for k, d in enumerate(self.decls) if d["code"] and (d["kind"] != "label" or d["sec"] != q)]
        if not code:
            c = [k + 1 for k, d in enumerate(self.decls) if d["code"] is False and not (d["kind"] == "label" and d["sec"] == q and self.mode == 64 and S["code"])]
        if not c:
            return None
        t = r.choice(c)
        return t, r.choice([0, 0, 0, 1, 4, 5, 127, 128, 1000, 70000, -1, -4, -300]) if not code and self.fmt != "elf64" else 0

    def item(self, S, q, D):
        r = self.r
        lab = ""
        after = None
        if D:
            if D["text"]:
                lab, after = D["text"] + "\n", D["n"] + " endp"
            elif S["code"]:
                lab = D["n"] + ":\n"
            else:
                lab = D["n"] + " "
        x = {"b": [], "n": 0, "k": "abs", "t": 0, "add": 0, "post": []}
        if S["bss"]:
            n = r.choice([1, 2, 4, 8, 12])
            x["b"] = [0] * n
            S["src"].append("%sdb %d dup (?)" % (lab, n))
        elif S["code"]:
            c = r.random()
            T = None
            if c < .3:
                T = self.target(S, q, True)
                if T:
                    t, pre, n, k, post = r.choice(JUMP)
            elif c < .85:
                T = self.target(S, q, False)
                if T:
                    t, pre, n, k, post = r.choice(M64 if self.mode == 64 else M32)
            if T:
                x = {"b": list(bytes.fromhex(pre)), "n": n, "k": k, "t": T[0], "add": T[1], "post": list(bytes.fromhex(post))}
                nm = self.decls[T[0] - 1]["n"]
                S["src"].append(lab + t % (nm + ("%+d" % T[1] if T[1] else "")))
            else:
                m, h = r.choice([("nop", "90"), ("cdq", "99"), ("mov eax, ebx", "8bc3"), ("int 3", "cc"), ("mov ecx, 12345h", "b945230100")])
                x["b"] = list(bytes.fromhex(h))
                S["src"].append(lab + m)
        else:
            c = r.random()
            T = self.target(S, q, False) if c < .55 else None
            if c > .9:      # code addresses in data
                cc = [k + 1 for k, d in enumerate(self.decls) if d["code"]]
                if cc:
                    T = (r.choice(cc), 0)
            if T:
                t, add = T
                d = self.decls[t - 1]
                fs = [("dd", 4, "abs", "%s"), ("dd", 4, "abs", "offset %s")] + ([("dq", 8, "abs", "%s")] * 3 if self.mode == 64 else [])
                if self.fmt.startswith("coff"):
                    fs += [("dd", 4, "img", "imagerel %s")]
                    if d["kind"] == "label":
                        fs += [("dd", 4, "sec", "sectionrel %s")]
                di, n, k, f = r.choice(fs)
                x.update(n=n, k=k, t=t, add=add)
                nm = d["n"] + ("%+d" % add if add else "")
                S["src"].append("%s%s %s" % (lab, di, f % nm))
            elif c < .62 and self.fmt != "elf64":
                x.update(n=4, t=0, add=r.choice([0, 4, 100]))
                S["src"].append("%sdd $%s" % (lab, "%+d" % x["add"] if x["add"] else ""))
            else:
                x["b"] = [r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 8]))]
                S["src"].append("%sdb %s" % (lab, ",".join(map(str, x["b"]))))
        S["items"].append(x)
        if D and not S["code"]:
            self.types[":@" + D["n"]] = {"db": ":byte", "dd": ":dword", "dq": ":qword"}[S["src"][-1].split()[1]]
        if after:
            S["src"].append(after)

    def source(self):
        r = self.r
        L = ["option casemap:none", "option prologue:none", "option epilogue:none"]
        if self.procpub:
            L.append("option proc:%s" % self.procpub)
        if self.mode == 32:
            L = [".686", ".xmm", ".model flat, %s" % self.deflang] + L
        typed = lambda H: [x.split(":@")[0] + self.types[":@" + x.split(":@")[1]] if ":@" in x else x for x in H]
        L += typed(self.head)
        # the sections in pieces; a label and its statement stay together
        left = [[q, list(S["src"])] for q, S in enumerate(self.secs)]
        inside = [""] * len(left)
        while any(l for _, l in left):
            q, l = r.choice([x for x in left if x[1]])
            S = self.secs[q]
            n = r.randint(1, len(l))
            while n < len(l) and ("endp" in l[n] or self.open(l[:n])):
                n += 1
            piece = l[:n]
            del l[:n]
            if S["k"] == "custom":
                L += ["%s segment %s" % (S["name"], "'CODE'" if S["code"] else "'DATA'")] + piece + ["%s ends" % S["name"]]
            else:
                L += [S["k"]] + piece
        return "\n".join(L + typed(self.tail) + ["end"]) + "\n"

    def open(self, l):
        return sum(" proc" in x.split("\n")[0] for x in l) > sum(x.endswith(" endp") for x in l)

    def case(self, out):
        obj = READ[self.fmt](out)
        if obj["fmt"] != self.fmt:
            raise Bad("format " + obj["fmt"])
        r = self.r
        wide = (1 << 47) if self.mode == 64 else (1 << 31)
        addr = lambda: le8(r.randrange(1 << 20, wide))
        return {"mode": self.mode, "dec": self.dec, "obj": obj,
                "p": {"secs": [{"name": S["name"], "items": S["items"], "bss": S["bss"]} for S in self.secs],
                      "decls": [{k: d[k] for k in ("n", "up", "lang", "proc", "par", "kind", "sec", "item", "pub", "sz", "used", "val", "alt", "al")} for d in self.decls]},
                "pl": {"secs": [addr() for _ in obj["secs"]], "img": addr()}, "far": [addr() for _ in self.decls]}
