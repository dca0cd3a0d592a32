#!/usr/bin/env python3
"""C19: runs over several modules (Session.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

H32 = ".386\n.model flat\n"
H64 = ".x64\n.model flat, fastcall\n"
# modules that leave something behind, finished or broken off in the middle of it
LIB = {
    # settings
    "radix": H32 + ".radix 16\n.code\ndw 10,0ff\nend\n",
    "radixerr": H32 + ".radix 2\n.code\ndw 101\nfoo bar\nend\n",
    "case": H32 + "option casemap:none\nAbc equ 1\nabc equ 2\n.code\nFoo: dd Abc, abc\nfoo: dd offset Foo, offset foo\nend\n",
    "caseall": H32 + "option casemap:all\n.code\nFoo: dd offset FOO\nend\n",
    "notpublic": H32 + "option casemap:notpublic\npublic Foo\n.code\nFoo: dd offset FOO\nend\n",
    "falign": H32 + "option fieldalign:8\nS struct\na db 1\nb dd 2\nS ends\n.code\ndd sizeof S\nend\n",
    "cpu": ".8086\n_T segment 'CODE'\nmov ax,1\n_T ends\nend\n",
    "cpu686": ".686p\n.mmx\n.xmm\n.model flat\n.code\nmovaps xmm0,xmm1\nrdmsr\nend\n",
    "cpuerr": ".8086\n.model small\n.code\nmov eax,1\npush 5\nend\n",
    "use16": H32 + "option segment:use16\nT2 segment 'CODE'\nmov ax,1\nmov eax,1\nT2 ends\nend\n",
    "literals": ".386\n.model flat\noption literals:on\n.code\ndw \"abc\"\nend\n",
    "nokeyword": H32 + "option nokeyword:<loop xlat lock>\n.code\nloop: jmp loop\nend\n",
    "renamekw": H32 + "option renamekeyword:<mov>=mv\n.code\nmv eax,1\nend\n",
    "renamekwerr": H32 + "option renamekeyword:<add>=addi\n.code\naddi eax,1\nadd eax,1\nend\n",
    "noljmp": H32 + "option noljmp\n.code\nl1: jmp l1\nend\n",
    "offset": H32 + "option offset:segment\n.code\nv dd offset v\nend\n",
    "prologue": H32 + "option prologue:none, epilogue:none\n.code\np1 proc c uses ebx a:dword\nmov eax,a\nret\np1 endp\nend\n",
    "prologuem": H32 + "mypro macro name, flag, pc, lc, regs, args\nnop\nexitm %lc\nendm\noption prologue:mypro\n.code\np1 proc stdcall a:dword\nlocal q:dword\nret\np1 endp\nend\n",
    "procvis": H32 + "option proc:private\n.code\np1 proc c a:dword\nret\np1 endp\nend\n",
    "language": ".386\n.model flat\noption language:stdcall\n.code\np1 proc a:dword\nret\np1 endp\nend\n",
    "dotname": H32 + "option dotname\n.code\n.x1: jmp .x1\nend\n",
    "epilogueflags": H32 + "option epilogue:flags\n.code\np1 proc c uses esi a:dword\nret\np1 endp\nend\n",
    "frame": H64 + "option frame:auto\noption win64:7\nf1 proto :qword,:qword\n.code\np1 proc frame uses rsi a:qword\nlocal z:qword\ninvoke f1, a, 2\nret\np1 endp\nend\n",
    "win64": H64 + "option win64:11\nf1 proto :qword,:dword,:qword,:qword,:qword\n.code\np1 proc frame a:qword\ninvoke f1, 1, 2, 3, 4, 5\nret\np1 endp\nend\n",
    "stackbase": H64 + "option stackbase:rsp\noption frame:auto\n.code\np1 proc frame a:qword\nlocal b:dword\nmov eax,b\nret\np1 endp\nend\n",
    "switchst": H32 + "option switch:pascal\n.code\n.switch eax\n.case 1\nnop\n.case 2\nnop\n.endswitch\nend\n",
    "arch": H64 + "option arch:avx\nf1 proto :real4\n.data\nv real4 1.0\n.code\np1 proc frame\ninvoke f1, v\nret\np1 endp\nend\n",
    "arch2": H64 + "option frame:auto\noption win64:11\n.code\np1 proc frame uses xmm6 xmm7 a:qword\nret\np1 endp\nend\n",
    "codeview": H32 + "option codeview:1\n.code\nnop\nend\n",
    "evex": H64 + "option evex:1\n.code\nvaddps xmm1,xmm2,xmm3\nend\n",
    "nomacro": H32 + "option nosignextend\n.code\nadd eax,0FFFFFFFFh\npush -1\nend\n",
    "m510": H32 + "option m510\nS struct\nfld1x dd 1\nS ends\n.code\nmov eax,[ebx].fld1x\nend\n",
    "oldmacros": H32 + "option oldmacros\nm macro a\ndb a\nendm\n.code\nm 1 2\nend\n",
    "oldstructs": H32 + "option oldstructs\nS struct\nfld2x dd 1\nS ends\n.code\nmov eax,[ebx].fld2x\nend\n",
    "scoped": H32 + "option noscoped\n.code\np1 proc\nl1: jmp l1\np1 endp\njmp l1\nend\n",
    "pushctx": H32 + "pushcontext all\n.radix 16\npushcontext assumes\nassume ebx:ptr dword\n.code\nmov [ebx],1\nend\n",
    "popctx": H32 + "popcontext all\n.code\nnop\nend\n",
    "assume": H32 + "S struct\na dd 1\nq dd 2\nS ends\nassume ebx:ptr S\n.code\nmov [ebx].q,1\nend\n",
    "assumeerr": H32 + "assume ebx:error\n.code\nmov eax,ebx\nend\n",
    "assume16": ".8086\nD segment\nx db 1\nD ends\nC segment 'CODE'\nassume cs:C, ds:D, es:D\nmov al,x\nC ends\nend\n",
    "noassume16": ".8086\nD segment\nx db 1\nD ends\nC segment 'CODE'\nassume cs:C\nmov al,x\nC ends\nend\n",
    "nolist": H32 + ".nolist\n.nolistmacro\nm macro\nnop\nendm\n.code\nm\n.list\nm\nend\n",
    "listall": H32 + ".listall\nm macro\nnop\nendm\n.code\nm\n.if eax\nm\n.endif\nend\n",
    "lfcond": H32 + ".lfcond\n.code\nif 0\nfoo\nendif\nnop\nend\n",
    "nocref": H32 + ".nocref\nx = 1\n.code\ndb x\nend\n",
    "page": H32 + "page 60,132\ntitle t1\nsubttl s1\n.code\nnop\nend\n",
    "dosseg": ".8086\n.model small\n.dosseg\n.stack 100h\n.data\nx dw 1\n.code\nmov ax,x\nend\n",
    "alpha": ".8086\n.alpha\nB segment\ndb 1\nB ends\nA segment\ndb 2\nA ends\nend\n",
    "seq": ".8086\nB segment\ndb 1\nB ends\nA segment\ndb 2\nA ends\nend\n",
    "noemul": ".8086\n.model small\n.code\nfld st(1)\nfadd\nend\n",
    "emul": ".8086\n.model small\noption emulator\n.code\nfld st(1)\nfadd\nend\n",
    # names
    "macro": H32 + "nm1 macro a,b:=<7>\nlocal z\nz db a,b\nendm\n.code\nnm1 1\nnm1 2,3\nend\n",
    "nomac": H32 + ".code\nnm1 1\nend\n",
    "text": H32 + "tx1 textequ <db 5>\n.code\ntx1\nend\n",
    "notext": H32 + ".code\ntx1\nend\n",
    "equ": H32 + "eq1 equ 5\nvr1 = 6\n.code\ndb eq1,vr1\nend\n",
    "noequ": H32 + ".code\ndb eq1,vr1\nend\n",
    "struc": H32 + "ST1 struct\na db 1\nST1 ends\n.code\nv1 ST1 <>\nend\n",
    "nostruc": H32 + ".code\nv1 ST1 <>\nend\n",
    "record": H32 + "RC1 record ra1:3,rb1:5\n.code\nv1 RC1 <1,2>\nend\n",
    "typedef": H32 + "TD1 typedef ptr dword\n.code\nv1 TD1 0\nend\n",
    "proto": H32 + "pr1 proto c :dword,:vararg\n.code\ninvoke pr1, 1, 2, addr l1\nl1: ret\nend\n",
    "ext": H32 + "extern ex1:near, ex2:dword\nexterndef ex3:byte\n.code\ncall ex1\nmov eax,ex2\nmov al,ex3\nend\n",
    "comm": H32 + "comm cm1:dword:4\npublic pb1\n.code\npb1: mov eax,cm1\nend\n",
    "group": ".8086\nA segment\na1 db 1\nA ends\nB segment\nb1 dw offset G:b1\nB ends\nG group A,B\nend\n",
    "alias": H32 + "alias <al1> = <al2>\nextern al2:near\n.code\ncall al2\nend\n",
    "anon": H32 + ".code\n@@: jmp @B\njmp @F\n@@: nop\nend\n",
    "anonerr": H32 + ".code\njmp @F\nend\n",
    "anonerr2": H32 + ".code\njmp @B\nend\n",
    "locals": H32 + "m macro\nlocal a\na: jmp a\nendm\n.code\nm\nm\ndb '&??0001'\nend\n",
    "locname": H32 + "m macro\nlocal a\n%db \"&a\"\nendm\n.code\nm\nm\nend\n",
    "undef": H32 + "x1 equ 5\nundef x1\n.code\ndb x1\nend\n",
    "predef": H32 + ".code\ndb @WordSize\n%db \"@CurSeg\"\n%db \"@FileName\"\ndw @Cpu and 0fffh\ndb @CodeSize, @DataSize, @Model, @Interface\nend\n",
    "predef64": H64 + ".code\ndb @WordSize\n%db \"@CurSeg\"\ndw @Cpu and 0fffh\ndb @Model, @Interface\nend\n",
    "line": H32 + ".code\ndw @Line\n\ndw @Line\nend\n",
    # passes, sizes
    "fwd": H32 + ".code\njmp l1\ndb 140 dup (0)\nl1: jnz l2\ndb 100 dup (1)\nl2: dd offset l1\nend\n",
    "fwdorg": H32 + ".code\ndb 1\norg 20h\ndb 2\norg 10h\ndb 3\nend\n",
    "floatd": H32 + ".data\nreal4 1.5,2.5\nreal8 3.5\nreal10 1.0\n.code\nnop\nend\n",
    "hll": H32 + ".code\n.if eax > 5\n.while ecx\ndec ecx\n.break .if edx\n.endw\n.else\n.repeat\ninc eax\n.until eax==9\n.endif\nend\n",
    "switch": H32 + ".code\n.switch eax\n.case 1\nnop\n.break\n.case 2,3\nnop\n.break\n.default\nret\n.endswitch\nend\n",
    "for": H32 + ".code\n.for (eax=0: eax<5: eax++)\nnop\n.endfor\nend\n",
    "procs": H32 + "p1 proto stdcall :dword\n.code\np2 proc c uses ebx esi a:dword, b:word\nlocal x:dword, y[4]:byte\nmov eax,x\nmov al,y\ninvoke p1, a\nret\np2 endp\np1 proc stdcall q:dword\nret\np1 endp\nend\n",
    "procs64": H64 + ".code\np2 proc frame uses rbx rsi a:qword, b:dword\nlocal x:dword\nmov eax,x\nmov b,edx\nret\np2 endp\nend\n",
    "fpushreg": H64 + ".code\np2 proc frame\npush rbp\n.pushreg rbp\nsub rsp,20h\n.allocstack 20h\n.endprolog\nadd rsp,20h\npop rbp\nret\np2 endp\nend\n",
    "strlit": H64 + "option literals:on\nf1 proto :ptr\n.code\np1 proc frame\ninvoke f1, \"hello\"\ninvoke f1, \"hello\"\nret\np1 endp\nend\n",
    "incl": H32 + "include inc1.inc\n.code\ndb inc_v\nend\n",
    "inclerr": H32 + "include nothere.inc\n.code\ndb 1\nend\n",
    "incbin": H32 + ".code\nincbin inc1.inc, 2, 4\nend\n",
    "includelib": H32 + "includelib abc.lib\n.code\nnop\nend\n",
    "echo": H32 + "echo hi\n%out there\n.code\nnop\nend\n",
    "warn": H32 + ".code\nmov byte ptr [ebx], 1\nd1 dd 1\nx1 db 2 dup (?)\nlea eax, [x1]\nend\n",
    "warn2": H32 + "S struct 4, nonunique\na db 1\nS ends\n.code\nnop\nend\n",
    "startup": ".8086\n.model small\n.stack\n.data\nx db 1\n.code\n.startup\nmov al,x\n.exit 0\nend\n",
    "startend": H32 + ".code\nst1: nop\nend st1\n",
    "tiny": ".8086\n.model tiny\n.code\norg 100h\nst1: ret\nend st1\n",
    "fastcall": ".386\n.model flat, fastcall\n.code\np1 proc a:dword, b:dword, z:dword\nmov eax,z\nret\np1 endp\nend\n",
    "vector": ".x64\n.model flat, vectorcall\n.code\np1 proc frame a:real4, b:qword\nret\np1 endp\nend\n",
    "reserve": H64 + "option win64:8\noption frame:auto\nf1 proto :qword,:qword,:qword,:qword,:qword,:qword\n.code\np1 proc frame\ninvoke f1, 1,2,3,4,5,6\nret\np1 endp\nend\n",
    "invoke32": H32 + "f1 proto c :dword,:byte,:word\n.code\ninvoke f1, 1, al, cx\ninvoke f1, addr l1, bl, 3\nl1: ret\nend\n",
    # broken off
    "opnif": H32 + ".code\nif 1\nif 0\ndb 1\nend\n",
    "opnelse": H32 + ".code\nif 0\nelse\nif 1\nelse\ndb 1\nend\n",
    "opnmac": H32 + ".code\nmz macro a\ndb a\n",
    "opnrept": H32 + ".code\nrept 3\ndb 1\n",
    "opnstruct": H32 + "SS struct\na db 1\nunion\nb dd 2\nend\n",
    "opnproc": H32 + ".code\npp proc c uses ebx a:dword\nlocal q:dword\nmov eax,q\nend\n",
    "opnproc64": H64 + ".code\npp proc frame uses rbx a:qword\nlocal q:dword\nmov eax,q\nend\n",
    "opnframe": H64 + ".code\npp proc frame\npush rbp\n.pushreg rbp\nend\n",
    "opnseg": ".386\nXX segment use32\ndb 1\nYY segment use32\ndb 2\nend\n",
    "opnhll": H32 + ".code\n.if eax\n.while ecx\n.repeat\nnop\nend\n",
    "opnswitch": H32 + ".code\n.switch eax\n.case 1\nnop\nend\n",
    "opnfor": H32 + ".code\n.for (eax=0: eax<5: eax++)\nnop\nend\n",
    "opncomment": H32 + ".code\ncomment ~ abc\ndb 1\nend\n",
    "noend": H32 + ".code\ndb 1\n",
    "macnest": H32 + "rr macro\nrr\nendm\n.code\nrr\nend\n",
    "err1": ".err\nend\n",
    "err2": H32 + ".code\n.erre 0\n.errdef x\n.errnz 1\n.errb <>\nend\n",
    "many": H32 + ".code\n" + "foo bar\n" * 60 + "end\n",
    "undefd": H32 + ".code\njmp nowhere\nmov eax,nothing\nend\n",
    "dupl": H32 + ".code\na1: nop\na1: nop\nend\n",
    "badexpr": H32 + ".code\nmov eax,[ebx+\ndb 1/0\ndw (1\nend\n",
    "strunterm": H32 + ".code\ndb 'abc\ndb \"x\ndb <1\nend\n",
    "errinmac": H32 + "mm macro a\nfoo a\nnn a\nendm\nnn macro b\nbar b\nendm\n.code\nmm 1\nmm 2\nend\n",
    "errininc": H32 + "include inc2.inc\n.code\nfoo\nend\n",
    "pass2err": H32 + ".code\nl1: db 1\n.errnz l2-l1-2\nl2:\nend\n",
    "exitmerr": H32 + "mm macro\nif 1\nexitm <5>\nendm\n.code\ndb mm()\nif 0\nend\n",
    "emptyf": "",
    "justend": "end\n",
    "nocpu": "_T segment 'CODE'\nassume cs:_T\nl1: mov ax,1\njmp l1\n_T ends\nend\n",
    "nocpu2": ".code\np1 proc a:word\nmov ax,a\nret\np1 endp\npush 5\nend\n",
    "nocpu64": ".code\np1 proc a:qword\nmov rax,rbx\nret\np1 endp\nend\n",
    "noseg": "mov ax,1\nend\n",
    "longline": H32 + ".code\ndb " + ",".join(["1"] * 300) + "\nend\n",
    "cont": H32 + ".code\ndb 1,\\\n2,\\\n3\nfoo \\\nbar\nend\n",
}
INC = {"inc1.inc": "inc_v = 9\ninc_m macro\nnop\nendm\n", "inc2.inc": "inc_v = 9\nfoo bar\nif 1\n"}
OPTS = {"zp": ["-Zp1", "-Zp2", "-Zp4", "-Zp8"], "case": ["-Cp", "-Cu", "-Cx"], "w": ["-W0", "-W1", "-W3", "-W4"], "dbg": ["-Zd", "-Zi"],
        "lang": ["-Gd", "-Gz", "-Gc"], "e": ["-e5", "-e2"], "lst": ["-Fl"], "wx": ["-WX"], "sa": ["-Sa"], "sx": ["-Sx"],
        "sf": ["-Sf"], "x": ["-X"], "zm": ["-Zm"], "zne": ["-Zne"], "zg": ["-Zg"], "zf": ["-Zf"], "sp": ["-Sp4"], "arch": ["-archAVX", "-archSSE"],
        "less": ["-less"], "cpu": ["-0", "-2", "-3p", "-5"], "model": ["-ms", "-mf", "-mt"]}
FMT = {"-bin": "bin", "-coff": "obj", "-win64": "obj", "-omf": "obj", "-elf": "obj", "-elf64": "obj", "-mz": "exe", "-pe": "exe"}
STAMP = re.compile(r"\d+ ms")


def mask(b, ext):
    if b is None:
        return None
    if ext == "obj" and b[:2] in (b"\x4c\x01", b"\x64\x86"):
        b = b[:4] + bytes(4) + b[8:]
    k = b.find(b"PE\0\0")
    if ext == "exe" and k > 0:
        b = b[:k + 8] + bytes(4) + b[k + 12:]
    return b


def outcome(d, name):
    """what one module left: every file with its stem, messages"""
    res = {}
    for f in sorted(os.listdir(d)):
        stem, _, ext = f.lower().rpartition(".")
        if stem == name.lower() and ext not in ("asm", "inc"):
            with open(os.path.join(d, f), "rb") as fh:
                b = fh.read()
            if ext == "lst":
                b = STAMP.sub("", b.decode("latin1")).encode("latin1")
            res[ext] = mask(b, ext)
    return res


def put(d, files):
    write_files(d, files)
    for n in files:
        os.utime(os.path.join(d, n), (10 ** 9, 10 ** 9))


def session_dir(files):
    d = newdir("y")
    put(d, INC)
    put(d, files)
    return d


def files_of(items, pool):
    return {it["text"]: pool[it["text"]] for it in items if it["k"] == "file"}


def command(items):
    return [it["text"] for it in items]


def options_of(key):
    """a canonical command line of the state: format first, then sorted"""
    s = key["set"] if isinstance(key["set"], dict) else {}
    o = key["once"] if isinstance(key["once"], dict) else {}
    return ([s["fmt"]] if "fmt" in s else []) + [s[k] for k in sorted(s) if k != "fmt"] + list(key["acc"]) + [o[k] for k in sorted(o)]


def runs(c, pool, sessions, what):
    """sessions: item lists. TLC computes which options apply to each file; each result
    must equal the one of a run of that file alone."""
    rs, tags = tlc_batch("Session", [{"items": s} for s in sessions], timeout=600)
    c.add_tlc(rs, what)
    logs = [tags["R"][k][0] for k in range(len(sessions))]
    need = {}
    for lg in logs:
        for e in lg["log"]:
            need.setdefault((e["f"], tuple(options_of(e["key"]))), None)

    def alone(k):
        f, opts = k
        d = session_dir({f: pool[f]})
        rc, _ = uasm(["-q"] + list(opts) + [f], d, 30)
        r = (rc, outcome(d, f[:-4]))
        shutil.rmtree(d, ignore_errors=True)
        return r

    wine_start()
    with ThreadPoolExecutor(NPROC) as ex:
        keys = list(need)
        for k, r in zip(keys, ex.map(alone, keys)):
            need[k] = r
    c.count("modules assembled alone", len(keys))

    def run(items):
        d = session_dir(files_of(items, pool))
        rc, _ = uasm(["-q"] + command(items), d, 60)
        r = rc, {it["text"]: outcome(d, it["text"][:-4]) for it in items if it["k"] == "file"}
        shutil.rmtree(d, ignore_errors=True)
        return r

    def judge_one(items, lg, got):
        rc, res = got
        last = lg["last"] if isinstance(lg["last"], dict) else {}
        want = []
        for e in lg["log"]:
            want.append(need[(e["f"], tuple(options_of(e["key"])))])
        if any(w[0] not in (0, 1) for w in want):
            return "skip"
        for f, k in last.items():
            # a file from an earlier assembly of the same source survives only if the last one did not write that kind
            w = want[k - 1][1]
            earlier = [want[n][1] for n in range(k - 1) if lg["log"][n]["f"] == f]
            allowed = {x for e in earlier for x in e} - {"err", "obj", "bin", "exe"}
            g = res[f]
            for ext in set(w) | set(g):
                if ext not in w and ext in allowed:
                    continue
                if w.get(ext) != g.get(ext):
                    a, b = w.get(ext), g.get(ext)
                    return "%s of %s in a run with other modules differs from that of the module alone: %s" % (
                        ext, f, "missing" if b is None else "unexpected" if a is None else diff(a, b))
        fail = int(any(w[0] for w in want))
        if rc != fail:
            return "the run exits with %s, %s module failed" % (rc, "a" if fail else "no")
        return None

    def diff(a, b):
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        return "at byte %d, %r instead of %r" % (k, b[k:k + 30], a[k:k + 30])

    with ThreadPoolExecutor(NPROC) as ex:
        got = list(ex.map(run, sessions))
    for items, lg, g in zip(sessions, logs, got):
        w = judge_one(items, lg, g)
        if w == "skip":
            c.count("sessions with a module that crashes alone")
            continue
        c.traces(1, what)
        if not w or not judge_one(items, lg, run(items)):
            continue
        # shorten: drop items while it still fails
        best = items
        changed = time.time() - c.t0 < 200
        while changed and len(best) > 1:
            changed = False
            for k in range(len(best)):
                cand = best[:k] + best[k + 1:]
                if not any(it["k"] == "file" for it in cand):
                    continue
                lg2 = tlc_batch("Session", [{"items": cand}])[1]["R"][0][0]
                for e in lg2["log"]:
                    kk = (e["f"], tuple(options_of(e["key"])))
                    if kk not in need:
                        need[kk] = alone(kk)
                w2 = judge_one(cand, lg2, run(cand))
                if w2 and w2 != "skip":
                    best, w, changed = cand, w2, True
                    break
        c.violation(w, command="uasm -q " + " ".join(command(best)), files=dict(INC, **files_of(best, pool)))
        if len(c.violations) >= 4:
            raise Enough()


def session(rng, names, fmts, nfiles, optp):
    items = [{"k": "set", "kind": "fmt", "text": rng.choice(fmts)}]
    defs = 0
    used = []
    for _ in range(nfiles):
        while rng.random() < optp:
            r = rng.random()
            if r < .15:
                defs += 1
                items.append({"k": "acc", "kind": "D", "text": "-Dd_%d=%d" % (defs, rng.randrange(9))})
            elif r < .3 and len(fmts) > 1:
                items.append({"k": "set", "kind": "fmt", "text": rng.choice(fmts)})
            else:
                k = rng.choice(list(OPTS))
                items.append({"k": "set", "kind": k, "text": rng.choice(OPTS[k])})
        f = rng.choice(used) if used and rng.random() < .12 else rng.choice(names)
        used.append(f)
        items.append({"k": "file", "kind": "", "text": f})
    return items


def regress(c, rng):
    """the sources of the regression tests, as modules of the same kind of run"""
    src = os.path.join(REPO, "regress", "src")
    groups = [("plain_bin", "-bin"), ("flat16", "-bin"), ("coff", "-coff"), ("coffdbg", "-coff"), ("win64", "-win64"), ("literals", "-win64"),
              ("linux64", "-elf64"), ("mz", "-mz"), ("vcall", "-win64"), ("avxerr", "-bin"), ("invoke64err", "-win64"), ("CodeGenV2", "-bin"),
              ("CodeGenV2Error", "-bin"), ("omf", "-omf"), ("omf2", "-omf"), ("elf", "-elf"), ("cinvoke", "-coff"), ("oo", "-win64")]
    pool, by = {}, {}
    for g, fmt in groups:
        p = os.path.join(src, g)
        if not os.path.isdir(p):
            continue
        for n in sorted(os.listdir(p)):
            if n.lower().endswith(".asm") and os.path.getsize(os.path.join(p, n)) < 30000:
                with open(os.path.join(p, n), "rb") as f:
                    t = f.read()
                if re.search(rb"@date|@time|%date|include\s", t, re.I):
                    continue
                name = "%s_%s.asm" % (g[:6].lower(), n[:-4].lower())
                pool[name] = t
                by.setdefault(fmt, []).append(name)
    out = []
    for fmt, names in by.items():
        for _ in range((6 if THOROUGH else 1) * max(2, len(names) // 6)):
            s = [{"k": "set", "kind": "fmt", "text": fmt}]
            if fmt == "-win64":
                s.append({"k": "set", "kind": "zp", "text": "-Zp8"})
            for _ in range(7):
                s.append({"k": "file", "kind": "", "text": rng.choice(names if rng.random() < .7 else list(LIBF))})
            out.append(s)
    pool.update(LIBF)
    runs(c, pool, out, "runs over regression sources")


LIBF = {n + ".asm": t for n, t in LIB.items()}


def pairs(rng, names):
    """every module directly behind every other at least once (thorough), else a random part"""
    out = []
    for f in ["-bin", "-coff", "-omf", "-elf", "-win64"]:
        order = list(names)
        rng.shuffle(order)
        for k in range(0, len(order), 35):
            out.append([{"k": "set", "kind": "fmt", "text": f}] + [{"k": "file", "kind": "", "text": n} for n in order[k:k + 35]])
    return out


def main_(c):
    rng = c.rng
    names = list(LIBF)
    runs(c, LIBF, sum((pairs(rng, names) for _ in range(30 if THOROUGH else 6)), []), "chains of modules")
    fm = ["-bin", "-coff", "-win64", "-omf", "-elf", "-mz"]
    S = [session(rng, names, rng.choice([fm, fm[:1], fm[1:2], fm[2:3], fm[3:4], ["-elf64"]]), rng.randint(2, 6), .45) for _ in range(1500 if THOROUGH else 160)]
    runs(c, LIBF, S, "runs with options between the modules")
    regress(c, rng)
    c.sample({"command": " ".join(command(S[0]))})
    c.assumptions += ["COFF and PE time stamps, milliseconds in listings are masked", "modules that crash alone are left out",
                      "-elf64 is not mixed with other formats (it implies a language that a later format option does not take back)"]


if __name__ == "__main__":
    main("C19", main_)
