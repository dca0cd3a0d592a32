#!/usr/bin/env python3
"""C23: files, macros and loops: what is read, and where messages say it stands (Sources.tla)."""
import os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import objs
import srcs

HEAD = re.compile(r"^(\S+\(\d+\)) : Error A\d+: .*?\b(zq\d+z)\b")


def diags(text):
    out = []
    for l in (text or "").replace("\r\n", "\n").split("\n"):
        m = HEAD.match(l)
        if m:
            out.append({"id": m.group(2), "pos": m.group(1), "chain": []})
        elif l.startswith(" ") and out:
            out[-1]["chain"].append(l.strip())
        elif l.strip():
            out.append({"id": "?", "pos": l.strip(), "chain": []})
    return out


def lines(b):
    """COFF line numbers. -> bytes of .text, "file(line)" of each"""
    o = objs.coff(b)
    T = [s for s in o["secs"] if s["name"] == ".text"][0]
    p, n = T["ln"]
    psym, nsym = struct.unpack_from("<II", b, 8)
    files, at, k, cur, start, ends = {}, {}, 0, None, {}, {}
    while k < nsym:
        raw, val, sec, typ, cls, aux = struct.unpack_from("<8sIhHBB", b, psym + 18 * k)
        a = psym + 18 * (k + 1)
        if cls == 103:
            cur = b[a:a + 18 * aux].rstrip(b"\0").decode("latin1")
        elif typ == 0x20 and aux == 1:
            tag, size = struct.unpack_from("<II", b, a)
            files[k] = cur
            ends[k] = (val, val + size)
            # .bf and its line
            start[k] = struct.unpack_from("<IH", b, psym + 18 * (tag + 1))[1]
        k += 1 + aux
    recs, f = [], None
    for j in range(n):
        v, l = struct.unpack_from("<IH", b, p + 6 * j)
        if l == 0:
            f = v
        elif f not in files:
            return T["data"], "function %s" % f
        else:
            recs.append((v, f, start[f] + (0 if l == 0x7fff else l)))
    recs.sort(key=lambda x: x[0])
    pos = []
    for q in range(len(T["data"])):
        r = [x for x in recs if x[0] <= q and ends[x[1]][0] <= q < ends[x[1]][1]]
        pos.append("%s(%d)" % (files[r[-1][1]], r[-1][2]) if r else "nowhere")
    return T["data"], pos


def want_bytes(out):
    return b"".join(bytes([x]) if isinstance(x, int) else x.encode("latin1") for x in out)


def slash(x):
    """names are the same with either separator"""
    return x.replace(b"\\", b"/") if isinstance(x, bytes) else x.replace("\\", "/")


def wrong(g, want, r):
    if g.mode == "lines":
        if r.out is None:
            return "no output: %s" % (r.brief()["msgs"][:2],)
        data, pos = lines(r.out)
        exp = [slash(d["pos"]) for d in want["diag"]]
        if data != want["out"]:
            return "other code"
        if isinstance(pos, str):
            return pos
        for k, (a, b) in enumerate(zip(pos, exp)):
            if slash(a) != b:
                return "the code at %d stands at %s, expected %s" % (k, a, b)
        return ""
    if g.mode == "bytes" or not want["diag"]:
        w = slash(want_bytes(want["out"]))
        if r.out is None:
            return "no output: %s" % (r.brief()["msgs"][:2],)
        o = slash(r.out)
        if o != w:
            at = next((k for k in range(min(len(w), len(o))) if w[k] != o[k]), min(len(w), len(o)))
            return "at byte %d of %d (%d): %s, expected %s" % (at, len(o), len(w), o[at:at + 8].hex(), w[at:at + 8].hex())
        return ""
    got = diags(slash(r.err or ""))
    exp = [dict(d, pos=slash(d["pos"]), chain=[slash(x) for x in d["chain"]]) for d in want["diag"]]
    if g.mode == "late":
        for d in got:
            d["chain"] = []
    if got == exp:
        return ""
    for a, b in zip(got, exp):
        if a != b:
            return "message %s, expected %s" % (a, b)
    return "%d messages, expected %d" % (len(got), len(exp))


def main_(c):
    build()
    wine_start()
    for rnd in range(12 if THOROUGH else 1):
        gens = [srcs.Gen(c.rng, m) for m in ("bytes", "bad", "late", "lines") for _ in range(160)]
        cases = [g.case() for g in gens]
        res, tags = tlc_batch("SourcesBatch", cases)
        c.add_tlc(res, "sources")
        want = [tags["V"][k][0] for k in range(len(gens))]
        from concurrent.futures import ThreadPoolExecutor

        def one(k):
            g = gens[k]
            return run_single(g.text, g.opts(), "obj" if g.mode == "lines" else "bin", files=g.disk)
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(one, range(len(gens))))
        for k, g in enumerate(gens):
            w = wrong(g, want[k], rs[k])
            if w:
                w = wrong(g, want[k], one(k))
            if w:
                f = dict(g.disk)
                f["m.asm"] = g.text
                c.violation("%s: %s" % (g.mode, w), options=" ".join(g.opts()), files=f)
            c.count(g.mode)
            c.count("messages", len(want[k]["diag"]))
            c.count("bytes", len(want[k]["out"]))
            c.count("files read", sum(1 for b in g.files))
        if rnd == 0:
            c.sample(gens[0].text[:800])
        c.traces(len(gens), "sources assembled")


main("C23", main_)
