#!/usr/bin/env python3
"""C13: INVOKE and PROC agree: arguments, locals, registers and stack (Calls.tla over Machine.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import calls

NEAR = ["c", "stdcall", "syscall", "pascal", "basic", "fortran"]
# mode, convention(s), options
GROUPS = [(16, NEAR, []), (32, NEAR, []), (32, "fastcall", []), (32, NEAR, ["option framepreserveflags:on"]),
          (64, "win64", ["option win64:1"]), (64, "win64", ["option win64:3"]), (64, "win64", ["option win64:7", "option framepreserveflags:on"]),
          (64, "win64", ["option stackbase:rsp", "option win64:3"]), (64, "win64", ["option stackbase:rsp", "option frame:auto", "option win64:15"]), (64, "systemv", [])]


def overwritten(r):
    """an argument that the earlier ones would destroy: the only reason a module may be rejected for"""
    return r.out is None and r.errors and any("2166" in str(m[2:4]) for m in r.errors)


def run(c, gens, label):
    texts = [g.source() for g in gens]
    rs = run_many(texts, per=20, timeout=40)
    cases, idx = [], []
    for k, (g, r) in enumerate(zip(gens, rs)):
        if not r.out or len(r.out) < 10:
            if not overwritten(r):
                r = run_single(texts[k])
            if overwritten(r):
                c.count("diagnosed: register overwritten")
                continue
            if not r.out or len(r.out) < 10:
                c.violation("%s: a module of calls is rejected: %s" % (label, r.brief()), source=texts[k])
                continue
        cases.append(calls.case(g, r.out))
        idx.append(k)
    res, tags = tlc_batch("CallsBatch", cases, timeout=800)
    c.add_tlc(res, label)
    wrong = []
    for j, k in enumerate(idx):
        v = tags["V"][j][0]
        c.count("stops reached", v["n"])
        if v["o"][0] == "!":
            wrong.append(k)
    if wrong:
        one = [(k, run_single(texts[k])) for k in wrong]
        one = [(k, r) for k, r in one if r.out]
        res, tags = tlc_batch("CallsBatch", [calls.case(gens[k], r.out) for k, r in one], timeout=400)
        for j, (k, r) in enumerate(one):
            v = tags["V"][j][0]
            if v["o"][0] == "!":
                c.violation("%s: at stop number %d: %s" % (label, v["n"], v["o"][1:]), source=texts[k], start=gens[k].start,
                            registers={q: e for q, e in gens[k].env.items() if e})
    c.count("modules", len(cases))
    c.traces(len(cases), label)


def known(c):
    for k in c.known:
        r = run_single(k["input"])
        if r.out is not None and r.out.hex() == k["gives"]:
            c.known_finding(k["what"])


def main_(c):
    rng = c.rng
    known(c)
    its = []
    for mode, conv, opts in GROUPS:
        for cv in ([conv] if isinstance(conv, str) else conv):
            L = calls.enumerated(rng, mode, cv, opts)
            its += L if THOROUGH else rng.sample(L, min(len(L), 9 if conv == NEAR else 20))
    run(c, its, "single calls")
    for rnd in range(12 if THOROUGH else 1):
        its = []
        for mode, conv, opts in GROUPS:
            for _ in range(90 if THOROUGH else 13 if not opts or mode == 64 else 6):
                cv = conv if isinstance(conv, str) or rng.random() < .4 else rng.choice(conv)
                its.append(calls.Gen(rng, mode, cv, opts).setup().module())
        if rnd == 0:
            c.sample(its[0].source()[:1500])
        run(c, its, "seeded modules")


if __name__ == "__main__":
    main("C13", main_)
