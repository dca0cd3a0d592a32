"""C15 and C16 on object files: the two checks differ in the modules generated and in which verdict counts."""
from vlib import *
import objs


def run(c, gens, which, label):
    texts = [g.source() for g in gens]
    groups = {}
    for k, g in enumerate(gens):
        groups.setdefault((g.fmt, tuple(g.opts)), []).append(k)
    cases, idx, rs = [], [], {}

    def one(k, r):
        g = gens[k]
        if not r.out:
            return "no object file: %s" % r.brief()
        try:
            return g.case(r.out)
        except objs.Bad as e:
            return "not an object file: %s" % e

    def opt(g):
        return [objs.OPT[g.fmt]] + list(g.opts)
    for (fmt, o), ks in groups.items():
        out = run_many([texts[k] for k in ks], [objs.OPT[fmt]] + list(o), ext=objs.EXT[fmt], per=25)
        rs.update(zip(ks, out))
    for k in range(len(gens)):
        v = one(k, rs[k])
        if isinstance(v, str):
            v = one(k, run_single(texts[k], opt(gens[k]), objs.EXT[gens[k].fmt]))
        if isinstance(v, str):
            c.violation("%s %s: %s" % (label, gens[k].fmt, v), options=" ".join(opt(gens[k])), files={"m.asm": texts[k]})
            continue
        cases.append(v)
        idx.append(k)
    res, tags = tlc_batch("ObjBatch", cases, timeout=800)
    c.add_tlc(res, label)
    for j, k in enumerate(idx):
        if not tags["V"][j][0][which]:
            continue
        # again, alone
        v = one(k, run_single(texts[k], opt(gens[k]), objs.EXT[gens[k].fmt]))
        if isinstance(v, str):
            w = v
        else:
            w = tlc_batch("ObjBatch", [v])[1]["V"][0][0][which]
        if w:
            c.violation("%s %s: %s" % (label, gens[k].fmt, w), options=" ".join(opt(gens[k])), files={"m.asm": texts[k]})
        else:
            c.count("wrong only behind other modules (see C19)")
    for k in idx:
        c.count(gens[k].fmt)
    c.count("references", sum(x["n"] > 0 for g in gens for S in g.secs for x in S["items"]))
    c.count("declarations", sum(len(g.decls) for g in gens))
    c.traces(len(cases), label)


def known(c):
    for k in c.known:
        r = run_single(k["input"], k["options"].split(), "obj")
        if r.out is not None and k["gives"] in r.out.hex():
            c.known_finding(k["what"])


def main_for(which, decl):
    def main_(c):
        known(c)
        for rnd in range(10 if THOROUGH else 1):
            gens = [objs.Gen(c.rng, f, decl) for f in ("coff64", "coff32", "elf64", "elf32") for _ in range(300 if THOROUGH else 220)]
            if rnd == 0:
                c.sample(gens[0].source()[:1500])
            run(c, gens, which, "declarations" if decl else "references")
    return main_
