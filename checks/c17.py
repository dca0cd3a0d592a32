#!/usr/bin/env python3
"""C17: exit status, output files and messages (Outcome.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

HEAD = "; line one\n.386\n.model flat\nS0 struct\nf1 dd ?\nS0 ends\nm0 macro a:req\ndb a\nendm\nv0 textequ <5>\nq0 equ 7\n.code\nst0:\n"
HEADMZ = "; line one\n.8086\n.model small\n.stack\nS0 struct\nf1 dw ?\nS0 ends\nm0 macro a:req\ndb a\nendm\nv0 textequ <5>\nq0 equ 7\n.code\nst0:\n"
OK = ["nop", "db 1,2,3", "mov al,5", "m0 7", "xx%d equ 5", "", "  ; comment", "if 0~foo bar~endif", "l%d: jmp l%d", "rept 2~db 9~endm", "jmp st0",
      "ifdef st0~db 1~else~bar~endif", "y%d = 1~y%d = 2"]
E1 = """foo bar|mov al,|mov al,bx|mov 5,ax|db 256|dw 10000h|x1 db 1/0|x2 = 1/0|m0|q0 equ 8|st0 equ 9|st0:|st0 dd 1|movx ax,1|lea ax,5|db 'abc|mov ax,(1
mov ax,1)|mov ax,[bx|add ax,ax,ax|ret ret|endm|endif|else|elseif 1|ends|nn ends|nn endp|exitm|shr ax,bx|S0 <1,2>|xx S0 1|assume ax:bogus|.endif|.endw
.until ax|.break|.else|align 3|even 1|extern st0:near|public 5|option bogus|option casemap:bogus|include nothere.inc|incbin nothere.bin|invoke undef7
invoke st0,1|local z:word|uses ax|jmp short st0+1000|loop st0+1000|textequ <a>|x6 substr <abc>,9|x7 substr <abc>,0|comment|for x|forc x|typedef
x9 record|record x|struct|push|pop 5|xchg 1,2|int 300|int ax|out ax,al|db dup(1)|db 5 dup|db 5 dup 1|db -1 dup (1)|real4 abc|mov ax,1 2|mov ax 1|ax|5|(|,
.bogus|@@|'abc'|mov ax,offset|mov ax,type|mov ax,sizeof|mov ax,not|mov byte ptr [bx],1000|cmp al,256|add al,-300|.err1x""".replace("\n", "|").split("|")
E2 = """mov ax,undef1|jmp undef2|dw undef3|call undef4|.erre 0|.errnz 1|.errdef st0|.errndef nothere|.errb <>|.errnb <a>|.errdif <a>,<b>|.erridn <a>,<a>
.err|.err <text>|org st0+undef5|mov ax,high undef9""".replace("\n", "|").split("|")
W = {1: ["m0 1,2", "m0 1,", "mov [bx],5", "add [bx],1", "m0 3,4,5"],
     2: [".model small", "includelib", ".safeseh st0", "if st0~endif"],
     3: ["w%d proc c a:word~ret~w%d endp@3", "w%d proc c~local z:word~ret~w%d endp@4"],
     4: ["title abc", "page", "w%d macro ax~endm", "subttl abc"]}
FATAL = ["zz macro", "rept 3", "while 0", "irp x,<1,2>"]


def build_module(c, rng, kinds, mz, incs):
    """kinds -> (files, statements for the model); the source is split over include files"""
    n = next(build_module.no)
    main = "s%d" % n
    files, stmts = {}, []
    cur = {"main": (HEADMZ if mz else HEAD).split("\n")[:-1]}
    names = ["main"]
    inc = 0
    for kd in kinds:
        uid = next(build_module.no)
        if kd in ("w1", "w2", "w3", "w4"):
            t, lvl = rng.choice(W[int(kd[1])]), int(kd[1])
        else:
            lvl = 0
            t = rng.choice({"ok": OK, "e1": E1, "e2": E2, "fatal": FATAL, "we": ["call far ptr st0"], "ee": ["extern c ww%d:word"], "ww": [""]}[kd])
        if kd == "ww":
            stmts.append({"k": "ww", "line": 0, "lvl": 2})
            continue
        at = 1
        if t[-2:-1] == "@" and t[-1].isdigit():
            t, at = t[:-2], int(t[-1])
        if "%d" in t:
            t = t.replace("%d", str(uid))
        lines = t.split("~")
        where = "main"
        if kd != "fatal" and rng.random() < incs:
            if inc and rng.random() < .5:
                where = "i%d" % inc
            else:
                inc += 1
                where = "i%d" % inc
                cur[where] = []
                names.append(where)
                cur["main"].append("include %s_%s.inc" % (main, where))
        base = len(cur[where])
        cur[where] += lines
        line = base + at + 1000 * names.index(where)
        if kd == "fatal":
            line = -1      # at the end of the file
        k = "w" if kd in ("w1", "w2", "w3", "w4") else kd
        stmts.append({"k": k, "line": 0 if kd in ("we", "ee") else line, "lvl": lvl})
        if kd == "fatal":
            break
    for k, nm in enumerate(names):
        if nm == "main":
            files[main + ".asm"] = "\n".join(cur[nm]) + "\nend%s\n" % (" st0" if mz and "ww" not in kinds else "")
        else:
            files["%s_%s.inc" % (main, nm)] = "\n".join(cur[nm]) + "\n"
    # where a fatal error at the end of the file is reported
    return main, files, stmts, {("%s_%s.inc" % (main, nm)) if nm != "main" else main + ".asm": k for k, nm in enumerate(names)}


build_module.no = itertools.count(1)


def make_case(c, rng, modkinds, opt, mz, stale, incs=.25):
    ms = []
    for kinds in modkinds:
        # an order: what stands behind an include file's later lines keeps the order of the files
        name, files, stmts, index = build_module(c, rng, kinds, mz, incs)
        ms.append({"name": name, "files": files, "stmts": stmts, "index": index, "stale": stale if stale is not None else rng.choice([[], ["out", "err", "lst"]])})
    return {"opt": opt, "mz": mz, "mods": ms}


def order(case):
    """statements in the order in which they are assembled (include files stand where they are included)"""
    for m in case["mods"]:
        pos = {}
        files = m["files"]
        main = m["name"] + ".asm"
        n = 0
        for ln, t in enumerate(files[main].split("\n"), 1):
            pos[ln] = n
            n += 1
            if t.startswith("include ") and t[8:] in files:
                k = m["index"][t[8:]]
                for l2, _ in enumerate(files[t[8:]].split("\n"), 1):
                    pos[1000 * k + l2] = n
                    n += 1
        m["stmts"].sort(key=lambda s: pos.get(s["line"], 10 ** 6))


def model_case(case):
    return {"opt": case["opt"], "mods": [{"name": m["name"], "stale": m["stale"], "stmts": m["stmts"]} for m in case["mods"]]}


def args_of(case):
    o = case["opt"]
    a = ["-mz" if case["mz"] else "-bin", "-nomlib"]
    if o["quiet"]:
        a.append("-q")
    if o["eq"]:
        a.append("-eq")
    if o["W"] == 0 and o["WX"] and o.get("wform"):
        a.append("-w")
    else:
        if o["W"] != 2 or o.get("wform"):
            a.append("-W%d" % o["W"])
        if o["WX"]:
            a.append("-WX")
    if o["e"] != 50:
        a.append("-e%d" % o["e"])
    if o["zs"]:
        a.append("-Zs")
    return a


def execute(case):
    d = newdir("o")
    o = case["opt"]
    ext = "exe" if case["mz"] else "bin"
    a = args_of(case)
    multi = len(case["mods"]) > 1
    fo = {"std": None, "name": "outp." + ext, "noext": "outp", "bad": "nodir\\outp.bin", "dir": "sub\\"}[o["fo"]]
    if o["fo"] == "dir":
        os.makedirs(os.path.join(d, "sub"))
    fl = {"none": None, "std": "-Fl", "name": "-Fl=list.txt", "bad": "-Fl=nodir\\x.lst"}[o["fl"]]
    fw = o.get("fw")
    for m in case["mods"]:
        write_files(d, m["files"])
    paths = []
    for m in case["mods"]:
        out = {"std": m["name"] + "." + ext, "name": "outp." + ext, "noext": "outp." + ("exe" if case["mz"] else "bin"), "bad": m["name"] + ".none",
               "dir": os.path.join("sub", m["name"] + "." + ext)}[o["fo"]]
        err = (fw + ".err") if fw else m["name"] + ".err"
        lst = {"none": None, "std": m["name"] + ".lst", "name": "list.txt", "bad": None}[o["fl"]]
        paths.append((out, err, lst))
        if "out" in m["stale"] and o["fo"] != "bad":
            write_files(d, {out: b"OLD OUTPUT"})
        if "err" in m["stale"]:
            write_files(d, {err: b"OLD ERRORS"})
    if fo:
        a.append("-Fo=" + fo)
    if fl:
        a.append(fl)
    if fw:
        a.append("-Fw=" + fw)
    rc, con = uasm(a + [m["name"] + ".asm" for m in case["mods"]], d, 30)

    there = {os.path.relpath(os.path.join(r, f), d).lower(): os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}

    def rd(p):
        if p is None or p.lower() not in there:
            return None
        with open(there[p.lower()], "rb") as f:
            return f.read()
    res = {"rc": rc, "con": con, "mods": [tuple(rd(p) for p in q) for q in paths], "args": a,
           "left": sorted(f for r, _, fs in os.walk(d) for f in fs)}
    shutil.rmtree(d, ignore_errors=True)
    return res


SUMMARY = re.compile(r"^(\S+): (\d+) lines, (\d+) passes, (-?\d+) ms, (\d+) warnings, (\d+) errors$", re.M)


def wrong(case, want, got):
    if got["rc"] == "timeout":
        return "assembly does not end"
    if got["rc"] != want["status"]:
        return "exit status %s instead of %d" % (got["rc"], want["status"])
    o = case["opt"]
    con = parse_msgs(got["con"])
    allmsgs = []
    sums = {n: (int(w), int(e)) for n, _, _, _, w, e in SUMMARY.findall(got["con"])}
    for m, w, (out, err, lst) in zip(case["mods"], want["mods"], got["mods"]):
        nm = m["name"]
        if w["out"] == "new":
            if out is None or out == b"OLD OUTPUT":
                return "%s: no output though there was no error" % nm
        elif w["out"] == "none" and out is not None:
            return "%s: %s output file is left" % (nm, "the earlier" if out == b"OLD OUTPUT" else "an")
        elif w["out"] == "open" and out not in (None, b"OLD OUTPUT"):
            return "%s: syntax check writes an output file" % nm
        if (err is not None) != w["err"]:
            return "%s: error file %s" % (nm, "missing" if w["err"] else "is left though there are no messages")
        msgs = parse_msgs((err or b"").decode("latin1"))
        if err is not None and b"OLD ERRORS" in err:
            return "%s: error file holds messages of an earlier run" % nm
        allmsgs += msgs
        have = []
        for f, ln, kind, num, text in msgs:
            base = f.replace("/", "\\").split("\\")[-1].lower()
            if ln and base not in m["index"]:
                return "%s: message for unknown file: %s(%d): %s" % (nm, f, ln, text)
            have.append((kind[0], 1000 * m["index"][base] + ln if ln else 0))
        exp = [(x["kind"], x["line"]) for x in w["log"]]
        if ("F", -1) in exp:
            have = [("F", -1) if k == "F" else (k, l) for k, l in have]
        io = o["fo"] == "bad" or o["fl"] == "bad"
        if io and w["log"] and w["log"][0]["line"] == 0 and w["log"][0]["kind"] == "F":
            have = [("F", 0) if k == "F" else (k, l) for k, l in have]
        if have != exp:
            only = [x for x in exp if x not in have]
            more = [x for x in have if x not in exp]
            return "%s: messages %s, expected %s (%s)" % (nm, have[:12], exp[:12], "missing %s" % only[:5] if only else "surplus %s" % more[:5] if more else "order or number")
        nw = sum(1 for k, _ in have if k == "W")
        if w["summary"]:
            if not o["quiet"]:
                s = sums.get(nm + ".asm")
                if s != (nw, len(have) - nw):
                    return "%s: counts reported %s, messages written %s" % (nm, s, (nw, len(have) - nw))
            if lst is not None:
                s = [(int(a), int(b)) for a, b in re.findall(r"(\d+) warnings, (\d+) errors", lst.decode("latin1"))]
                if s[-1:] != [(nw, len(have) - nw)]:
                    return "%s: counts in the listing %s, messages written %s" % (nm, s[-1:], (nw, len(have) - nw))
        if o["fl"] in ("std", "name") and lst is None and not (o["fo"] == "bad" and not o["zs"]):
            return "%s: no listing" % nm
    if o["eq"]:
        if con:
            return "-eq does not keep the messages from the console"
    elif sorted(con) != sorted(allmsgs):
        return "console and error files hold different messages: %s / %s" % (sorted(con)[:4], sorted(allmsgs)[:4])
    if o["quiet"] and (sums or "UASM" in got["con"]):
        return "-q does not suppress banner and summary"
    return None


def decide(c, cases, what):
    for cs in cases:
        order(cs)
    rs, tags = tlc_batch("Outcome", [model_case(x) for x in cases], timeout=600)
    c.add_tlc(rs, what)
    wine_start()
    with ThreadPoolExecutor(NPROC) as ex:
        got = list(ex.map(execute, cases))
    for k, (cs, g) in enumerate(zip(cases, got)):
        want = tags["R"][k][0]
        w = wrong(cs, want, g)
        c.traces(1, what)
        if w and wrong(cs, want, execute(cs)):
            c.violation(w, command="uasm " + " ".join(g["args"] + [m["name"] + ".asm" for m in cs["mods"]]), expected=want, console=g["con"][:2000],
                        stale=[m["stale"] for m in cs["mods"]], files={f: t for m in cs["mods"] for f, t in m["files"].items()})


DEF = {"W": 2, "WX": False, "e": 50, "zs": False, "fo": "std", "fl": "none", "quiet": True, "eq": False}


def main_(c):
    rng = c.rng
    # every sequence of up to two statements, all warning settings
    K = ["ok", "e1", "e2", "w1", "w2", "w3", "w4", "fatal"]
    seqs = [[a] for a in K] + [[a, b] for a in K for b in K if a != "fatal"]
    cases = []
    for n, s in enumerate(seqs):
        for W in range(5):
            for X in (False, True):
                if not THOROUGH and len(s) == 2 and (n + W + X) % 2:
                    continue
                cases.append(make_case(c, rng, [s], dict(DEF, W=W, WX=X, wform=rng.random() < .5), False, [] if (n + W) % 3 == 0 else ["out", "err"], 0 if n % 2 else .3))
    decide(c, cases, "all pairs of statements at every warning level")
    # files and limits
    cases = []
    for fo in ("std", "name", "noext", "bad", "dir"):
        for fl in ("none", "std", "name", "bad"):
            for zs in (False, True):
                for s in (["ok"], ["ok", "e1"], ["w2", "e2"], ["ok", "w1"], ["we"] + ["ok"], ["ee", "ok"], ["fatal"]):
                    if not THOROUGH and rng.random() < .4:
                        continue
                    cases.append(make_case(c, rng, [s], dict(DEF, fo=fo, fl=fl, zs=zs, quiet=rng.random() < .5, fw=rng.choice(["", "", "errs"])), False, None))
    for mz in (False, True):
        for late in (["we"], ["ww"], ["ee"], []):
            if ("ww" in late) != mz and late:
                continue
            for X in (False, True):
                for s in (["ok"], ["ok", "w1"], ["w2", "e2"], ["ok", "w4"]):
                    for W in (0, 1, 2):
                        cases.append(make_case(c, rng, [s + late], dict(DEF, W=W, WX=X), mz, None))
    for e in (1, 2, 3, 5, 10):
        for n in range(max(0, e - 1), e + 3):
            cases.append(make_case(c, rng, [["e1"] * n + ["ok"]], dict(DEF, e=e, quiet=False), False, None))
            cases.append(make_case(c, rng, [["e2"] * n + ["ok"]], dict(DEF, e=e, quiet=False), False, None))
    for n in (49, 50, 51, 52, 60):
        cases.append(make_case(c, rng, [[rng.choice(["e1", "e1", "ok", "w1"]) for _ in range(8)] + ["e1"] * n], dict(DEF, quiet=False), False, None))
    decide(c, cases, "file options, limits, errors when writing")
    # several modules, longer sources, includes
    cases = []
    for _ in range(3000 if THOROUGH else 350):
        mz = rng.random() < .15
        pool = K[:3] * 2 + K[3:7] + (["ww"] if mz else ["we", "ee"]) + ["fatal"] * (rng.random() < .3)
        good = [x for x in pool if x not in ("e1", "e2", "fatal", "we", "ee")] + ["ok"] * 3
        mods = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            p = good if rng.random() < .5 else pool
            mods.append([rng.choice(p) for _ in range(rng.randint(1, 14))])
            if "ww" in mods[-1]:
                mods[-1] = [x for x in mods[-1] if x != "ww"] + ["ww"]
        multi = len(mods) > 1
        opt = dict(DEF, W=rng.randrange(5), WX=rng.random() < .25, zs=rng.random() < .1, quiet=rng.random() < .4, eq=rng.random() < .15,
                   fl=rng.choice(["none", "none", "std"] + ([] if multi else ["name"])), fo=rng.choice(["std", "std", "dir"] + ([] if multi else ["name", "noext"])))
        if not opt["WX"] and rng.random() < .3:
            opt["e"] = rng.randint(1, 6)
        cases.append(make_case(c, rng, mods, opt, mz, None))
    decide(c, cases, "runs of several modules")
    c.sample({"statements": [s["k"] for s in cases[0]["mods"][0]["stmts"]], "options": cases[0]["opt"]})
    c.assumptions += ["which pass finds a statement's error is given with the statement table", "-e together with -WX is left open",
                      "a file left from an earlier run next to a syntax check is left open"]


if __name__ == "__main__":
    main("C17", main_)
