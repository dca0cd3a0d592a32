"""Checks programs of ppgen against spec/Preproc.tla."""
import random
from vlib import *
from ppgen import Gen, render

BASE = [".386", ".model flat", ".code"]
# what stands around a program: the bytes before and after it are known, but
# each shape makes the assembler pass over the source differently
SHAPES = {
    "plain": (BASE, [], lambda out: out),
    # the jump is first taken to be short: a third pass, on saved lines
    "jump": (BASE + ["jmp zz_end", "db 130 dup (0)"], ["zz_end:"],
             lambda out: b"\xe9" + (130 + len(out)).to_bytes(4, "little") + bytes(130) + out),
    # every pass reads the whole source again
    "full": ([".386", "option setif2:true", ".model flat", ".code"], [], lambda out: out),
    "fulljump": ([".386", "option setif2:true", ".model flat", ".code", "jmp zz_end", "db 130 dup (0)"], ["zz_end:"],
                 lambda out: b"\xe9" + (130 + len(out)).to_bytes(4, "little") + bytes(130) + out),
    # the first definitions stand before anything else
    "late": (BASE, [], lambda out: out),
    # a forward label before anything is emitted
    "fwd": (BASE + ["dd offset zz_end - zz_start"], ["zz_end:"], lambda out: len(out).to_bytes(4, "little") + out),
}
SHAPES["fwd"] = (BASE + ["zz_start equ $ + 4", "dd zz_end - zz_start"], ["zz_end:"],
                 lambda out: len(out).to_bytes(4, "little") + out)
PASS2 = {2114, 2102}


def expect(o, shape="plain"):
    """(bytes or None, errors, surplus-argument warnings) of a spec outcome"""
    errs = o["err"]
    p1 = [e for e in errs if e[1] not in PASS2]
    errs = p1 or errs
    return (None if errs else SHAPES[shape][2](bytes(o["out"]))), [tuple(e[:2]) for e in errs], sorted(w[0] for w in o["wrn"])


def agrees(o, r, shape):
    out, errs, wrn = expect(o, shape)
    nhead = len(SHAPES[shape][0])
    got = [((m[1] - nhead) if m[1] else 0, m[3]) for m in r.errors]
    if r.out != out:
        return False
    if len(got) != len(errs):
        return False
    if sorted(x[0] for x in got) != sorted(x[0] for x in errs):
        return False
    for (l, n), (gl, gn) in zip(sorted(errs), sorted(got)):
        if n and n != gn:
            return False
    return wrn == sorted(m[1] - nhead for m in r.warnings if m[3] == 4150)


def run_programs(c, progs, texts, shapes, what, opts=("-bin",), files=None):
    """progs: line lists for the specification; texts: what the assembler gets."""
    cases = [{"lines": p} for p in progs]
    results, tags = tlc_batch("PreprocBatch", cases, heap="2g", drop_overflow=True)
    c.add_tlc(results, what)
    outs = tags.get("OUT", {})
    idx = [i for i in range(len(progs)) if i in outs and not outs[i][0]["fuel"]]
    c.count("dropped for length or magnitude", len(progs) - len(idx))
    rs = run_many([texts[i] for i in idx], opts, files=files)
    bad = []
    for i, r in zip(idx, rs):
        o = outs[i][0]
        if not agrees(o, r, shapes[i]):
            r2 = run_single(texts[i], opts, files=files)
            if not agrees(o, r2, shapes[i]):
                bad.append((i, o, r2))
            else:
                c.count("wrong only behind other modules (see C19)")
        else:
            c.count("with errors" if expect(o)[1] else "error-free")
    c.traces(len(idx), what)
    return bad


def report(c, bad, texts, shapes, label):
    for i, o, r in bad[:20]:
        out, errs, wrn = expect(o, shapes[i])
        n = len(SHAPES[shapes[i]][0])
        c.violation("%s: expected %s %s, assembler gave %s %s" % (
            label, hexs(out), errs, hexs(r.out), [((m[1] - n), m[3]) for m in r.errors]),
            expected={"out": hexs(out), "errors": errs, "surplus": wrn}, actual=r.brief(), files={"m.asm": texts[i]})


def random_part(c, focus, n, size=(4, 12), errors=.15, shapes=("plain",)):
    progs, texts, sh = [], [], []
    for k in range(n):
        rng = random.Random("%s/%s/%d/%d" % (c.pid, focus, SEED, k))
        g = Gen(rng, focus, errors, rng.randrange(*size))
        p = g.program()
        s = shapes[k % len(shapes)]
        progs.append(p)
        texts.append(render(p, rng, SHAPES[s][0], SHAPES[s][1], g.nv if s == "late" else 0))
        sh.append(s)
    bad = run_programs(c, progs, texts, sh, "random " + focus)
    c.sample({"program": progs[0]})
    report(c, bad, texts, sh, focus)
    return bad
