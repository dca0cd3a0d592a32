#!/usr/bin/env python3
"""C14: Win64 unwind data restore the caller from every point of a procedure (Unwind.tla over Machine.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import objs, unw

KINDS = [("explicit", [])] * 4 + [("auto", o) for o in (
    [], ["win64:1"], ["win64:3"], ["win64:7"], ["stackbase:rsp", "win64:3"], ["stackbase:rsp", "win64:15"], ["stackbase:rsp", "win64:11"], ["stackbase:rsp"])]


def one(g, r):
    if r.out is None:
        return None, "rejected: %s" % (r.brief(),)
    try:
        return unw.case(g, r.out), ""
    except objs.Bad as e:
        return None, "object: %s" % e


def run(c, gens):
    rs = run_many([g.source() for g in gens], ["-win64"], ext="obj", per=20, timeout=40)
    cases, idx, bad = [], [], []
    for k, (g, r) in enumerate(zip(gens, rs)):
        d, e = one(g, r)
        if e:
            bad.append(k)
        else:
            cases.append(d)
            idx.append(k)
    res, tags = tlc_batch("UnwindBatch", cases, timeout=800)
    c.add_tlc(res, "unwinding")
    for j, k in enumerate(idx):
        v = tags["V"][j][0]
        c.count("points unwound", v["n"])
        if v["o"] != "ok":
            bad.append(k)
    for k in bad[:40]:
        g = gens[k]
        d, e = one(g, run_single(g.source(), ["-win64"], "obj"))
        if not e:
            v = tlc_batch("UnwindBatch", [d], timeout=200)[1]["V"][0][0]
            e = v["o"][1:] if v["o"] != "ok" else ""
        if e:
            c.violation("%s %s: %s" % (g.kind, g.opts, e), source=g.source(), options="-win64")
    c.count("modules", len(cases))
    c.count("procedures", sum(len(g.procs) for g in gens))
    c.traces(len(cases), "objects unwound")


# directives no record can express: they have to be rejected, or the record would lie
BAD = [".allocstack 12", ".allocstack 0", ".allocstack 100000000h", ".savereg rbx, 4", ".savexmm128 xmm6, 8", ".savexmm128 xmm6, 524296", ".setframe rbp, 256", ".setframe rbp, 8",
       ".savereg ebx, 8", ".pushreg xmm6", ".pushreg ax", ".savexmm128 rbx, 16", ".setframe xmm1, 16", "db 252 dup (90h)", ".endprolog"]


def rejected(c):
    texts = ["option casemap:none\n.code\np1 proc frame\n push rbx\n .pushreg rbx\n sub rsp, 32\n .allocstack 32\n %s\n .endprolog\n ret\np1 endp\nend\n" % b for b in BAD]
    texts += ["option casemap:none\n.code\np1 proc frame\n push rbx\n .pushreg rbx\n ret\np1 endp\nend\n", "option casemap:none\n.code\np1 proc frame\n .endprolog\n push rbx\n .pushreg rbx\n ret\np1 endp\nend\n",
              "option casemap:none\n.code\np1 proc\n push rbx\n .pushreg rbx\n .endprolog\n ret\np1 endp\nend\n"]
    for t, r in zip(texts, run_many(texts, ["-win64"], ext="obj")):
        if r.out is not None:
            r = run_single(t, ["-win64"], "obj")
        if r.out is not None:
            c.violation("accepted: %s" % t.split("\n")[7], source=t, options="-win64")
        c.count("rejected")


def main_(c):
    rejected(c)
    for rnd in range(10 if THOROUGH else 1):
        gens = [unw.Gen(c.rng, *c.rng.choice(KINDS)) for _ in range(240)]
        if rnd == 0:
            c.sample(gens[0].source()[:1500])
        run(c, gens)


if __name__ == "__main__":
    main("C14", main_)
