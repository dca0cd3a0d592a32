"""Common machinery of the checks: build the assembler from /repo, run it under
wine on batches of modules, run TLC on batches of cases, report."""
import atexit, hashlib, itertools, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 4)
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed (neither held nor violated)."""


class Enough(Exception):
    """So many violations that looking for more is pointless."""


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="uasmv_")
        atexit.register(_cleanup)
    return _scratch


_wine_up = False


def _cleanup():
    if _wine_up:
        try:
            subprocess.run(["wineserver", "-k"], env=_wine_env(), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=20)
        except Exception:
            pass
    if os.environ.get("VERIF_KEEP"):
        print("kept scratch", _scratch)
    else:
        shutil.rmtree(_scratch, ignore_errors=True)


def _sig(signum, frame):
    sys.exit(3)


signal.signal(signal.SIGTERM, _sig)


# ---------------------------------------------------------------- build
def _src_hash():
    h = hashlib.sha256()
    names = []
    for d in (REPO, os.path.join(REPO, "H")):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p) and n.rsplit(".", 1)[-1].lower() in ("c", "h", "mak", "inc"):
                names.append(p)
    for p in names + ["/opt/vp/deps.mk", "/opt/vp/bin/x86_64-w64-mingw32-gcc.exe"]:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


_exe = None


def build():
    """Builds uasm.exe from the current /repo tree (outside of it); returns its path."""
    global _exe
    if _exe:
        return _exe
    cache = os.environ.get("VERIF_BUILD_CACHE")  # development only
    key = _src_hash()
    if cache and os.path.exists(os.path.join(cache, key + ".exe")):
        _exe = os.path.join(cache, key + ".exe")
        return _exe
    outd = os.path.join(scratch(), "build")
    os.makedirs(outd, exist_ok=True)
    env = {"HOME": "/root", "LC_ALL": "C",
           "PATH": "/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}
    p = subprocess.run(["make", "-j8", "-f", "GccWin64.mak", "-f", "/opt/vp/deps.mk",
                        "OUTD=" + outd, "name=uasm", "ALL"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    exe = os.path.join(outd, "uasm.exe")
    if p.returncode or not os.path.exists(exe):
        raise CheckError("build failed:\n" + p.stdout.decode("latin1")[-3000:])
    if cache:
        os.makedirs(cache, exist_ok=True)
        tmp = os.path.join(cache, key + ".tmp%d" % os.getpid())
        shutil.copy(exe, tmp)
        os.replace(tmp, os.path.join(cache, key + ".exe"))
    _exe = exe
    return exe


# ---------------------------------------------------------------- wine
def _wine_env():
    e = {k: v for k, v in os.environ.items() if k not in ("DISPLAY", "ASM", "UASM", "JWASM", "INCLUDE")}
    e.update(HOME="/root", LC_ALL="C", LANG="C", TZ="UTC", WINEPREFIX=os.path.join(scratch(), "wine"),
             WINEDEBUG="-all", WINEARCH="win64",
             WINEDLLOVERRIDES="mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d")
    return e


def wine_start():
    """A private prefix: own registry files, the dlls of the shared prefix."""
    global _wine_up
    if _wine_up:
        return
    src = "/opt/vp/wine"
    pre = os.path.join(scratch(), "wine")
    os.makedirs(os.path.join(pre, "dosdevices"))
    for n in ("system.reg", "user.reg", "userdef.reg", ".update-timestamp"):
        shutil.copy2(os.path.join(src, n), os.path.join(pre, n))
    os.symlink(os.path.join(src, "drive_c"), os.path.join(pre, "drive_c"))
    os.symlink("../drive_c", os.path.join(pre, "dosdevices", "c:"))
    os.symlink("/", os.path.join(pre, "dosdevices", "z:"))
    _wine_up = True
    subprocess.run(["wineserver", "-p600"], env=_wine_env(), stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, timeout=60)
    # warm up, and make sure that programs run at all
    d = os.path.join(scratch(), "warm")
    os.makedirs(d)
    with open(os.path.join(d, "w.asm"), "w") as f:
        f.write("db 1,2,3\nend\n".replace("db", ".386\n.model flat\n.code\ndb"))
    for attempt in range(4):
        try:
            subprocess.run(["wine", build(), "-q", "-bin", "w.asm"], cwd=d, env=_wine_env(),
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            pass
        if find(d, "w.bin"):
            return
        time.sleep(1)
    # the assembler may be broken: see whether wine runs anything
    p = subprocess.run(["wine", "cmd", "/c", "echo", "alive"], env=_wine_env(),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=120)
    if b"alive" not in p.stdout:
        raise CheckError("wine does not run here")


def find(d, name):
    for f in os.listdir(d):
        if f.lower() == name.lower():
            return os.path.join(d, f)
    return None


def uasm(args, cwd, timeout=30, env=None):
    """One run. -> (exit status or 'timeout', console output)"""
    wine_start()
    e = _wine_env()
    if env:
        e.update(env)
    try:
        p = subprocess.run(["wine", build()] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return p.returncode, p.stdout.decode("latin1").replace("\r\n", "\n")
    except subprocess.TimeoutExpired:
        return "timeout", ""


MSG = re.compile(r"^(?:(.*?)(?:\((\d+)\))? ?: )?(Error|Warning|Fatal error) A(\d+): (.*)$")


class Res:
    """Result of one module: out (bytes or None), msgs [(file,line,kind,num,text)], lst."""
    __slots__ = ("out", "msgs", "lst", "rc", "console", "err")

    def __init__(self):
        self.out = None
        self.msgs = []
        self.lst = None
        self.rc = None
        self.console = ""
        self.err = None

    @property
    def errors(self):
        return [m for m in self.msgs if m[2] != "Warning"]

    @property
    def warnings(self):
        return [m for m in self.msgs if m[2] == "Warning"]

    @property
    def ok(self):
        return self.out is not None and not self.errors

    def brief(self):
        return {"rc": self.rc, "out": None if self.out is None else self.out.hex(),
                "msgs": ["%s(%s): %s A%s: %s" % m for m in self.msgs]}


def parse_msgs(text):
    res = []
    for line in text.splitlines():
        m = MSG.match(line.strip("\r"))
        if m:
            res.append((m.group(1) or "", int(m.group(2) or 0), m.group(3), int(m.group(4)), m.group(5)))
    return res


_dirno = itertools.count(1)


def newdir(tag="d"):
    d = os.path.join(scratch(), "%s%d" % (tag, next(_dirno)))
    os.makedirs(d)
    return d


def _collect(d, name, ext, want_lst):
    r = Res()
    listing = {f.lower(): f for f in os.listdir(d)}
    return _collect2(d, listing, name, ext, want_lst)


def _collect2(d, listing, name, ext, want_lst):
    r = Res()
    f = listing.get(name.lower() + "." + ext)
    if f:
        with open(os.path.join(d, f), "rb") as fh:
            r.out = fh.read()
    f = listing.get(name.lower() + ".err")
    if f:
        with open(os.path.join(d, f), encoding="latin1") as fh:
            r.err = fh.read()
        r.msgs = parse_msgs(r.err)
    if want_lst:
        f = listing.get(name.lower() + ".lst")
        if f:
            with open(os.path.join(d, f), encoding="latin1") as fh:
                r.lst = fh.read().replace("\r\n", "\n")
    return r


def write_files(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(t, str):
            t = t.encode("latin1")
        with open(p, "wb") as f:
            f.write(t)


def run_single(text, opts=("-bin",), ext="bin", name="m", files=None, want_lst=False, timeout=30, env=None):
    d = newdir("s")
    write_files(d, dict(files or {}))
    write_files(d, {name + ".asm": text})
    rc, con = uasm(["-q"] + list(opts) + [name + ".asm"], d, timeout, env)
    r = _collect(d, name, ext, want_lst)
    r.rc = rc
    r.console = con
    shutil.rmtree(d, ignore_errors=True)
    return r


def run_many(texts, opts=("-bin",), ext="bin", files=None, want_lst=False, per=60, timeout=60):
    """Assembles many modules, several in one process. -> [Res] in order.
    A module that seems to be lost (process died or hung) is run again alone."""
    wine_start()
    results = [None] * len(texts)
    chunks = [list(range(i, min(i + per, len(texts)))) for i in range(0, len(texts), per)]
    dirs = [newdir("b") for _ in chunks]

    def job(k):
        idx, d = chunks[k], dirs[k]
        if files:
            write_files(d, dict(files))
        for j in idx:
            write_files(d, {"m%d.asm" % j: texts[j]})
        rc, con = uasm(["-q"] + list(opts) + ["m%d.asm" % j for j in idx], d, timeout)
        listing = {f.lower(): f for f in os.listdir(d)}
        for j in idx:
            results[j] = _collect2(d, listing, "m%d" % j, ext, want_lst)
            if rc == "timeout" or (results[j].out is None and not results[j].errors):
                results[j] = None
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(job, range(len(chunks))))
    lost = [j for j, r in enumerate(results) if r is None]
    hung = []

    def again(j):
        if len(hung) >= 8:
            results[j] = Res()
            results[j].rc = "timeout"
            return
        results[j] = run_single(texts[j], opts, ext, "m%d" % j, files, want_lst, 20)
        if results[j].rc == "timeout":
            hung.append(j)

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(again, lost))
    return results


def judge(c, texts, wrong, label=None, report=None, opts=("-bin",), ext="bin", files=None, want_lst=False, per=60, timeout=60):
    """Assembles the modules and asks wrong(i, result) for a complaint about each.
    A complaint counts if it is also made about the module assembled alone.
    -> [Res]"""
    rs = run_many(texts, opts, ext, files, want_lst, per, timeout)
    for i, r in enumerate(rs):
        if not wrong(i, r):
            continue
        r = rs[i] = run_single(texts[i], opts, ext, "m", files, want_lst)
        w = wrong(i, r)
        if not w:
            c.count("wrong only behind other modules (see C19)")
            continue
        data = report(i, r) if report else {}
        f = {"m.asm": texts[i]}
        f.update(files or {})
        c.violation("%s: %s" % (label(i) if callable(label) else label, w) if label else w,
                    options=" ".join(opts), actual=r.brief(), files=f, **data)
    return rs


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.states = 0       # states generated (transitions + initial states)
        self.distinct = 0
        self.prints = []      # parsed PrintT lines <<"tag", ...>>
        self.out = ""
        self.ok = False


def _unq(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


PRE = re.compile(r'^<<\s*"@([A-Z]+)",\s+(-?\d+),\s+"(.*)"\s*>>$', re.M)    # long tuples are printed over several lines


def tlc(module, cfg=None, env=None, args=(), timeout=600, heap="3g", workers=1, allow_violation=False):
    """Runs TLC on spec/<module>.tla. Lines printed as <<"@TAG", n, "json">> are
    returned as (TAG, n, parsed json)."""
    d = newdir("t")
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cfgp = os.path.join(SPEC, (cfg or module) + ".cfg")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", JAVA_CP, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfgp] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout on %s" % module)
    out = p.stdout.decode("utf8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    r = TLCResult()
    r.out = out
    for m in PRE.finditer(out):
        r.prints.append((m.group(1), int(m.group(2)), json.loads(_unq(m.group(3)))))
    for line in out.splitlines():
        m = re.match(r"^(\d+) states generated(?: \(.*\))?, (\d+) distinct states found", line)
        if m:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.match(r"^The number of states generated: (\d+)", line)
        if m:
            r.states = r.distinct = int(m.group(1))
    r.ok = p.returncode == 0
    r.rc = p.returncode
    if not r.ok and not allow_violation:
        tail = [l for l in out.splitlines() if not l.startswith("<<\"@")
                and not re.match(r"(Parsing|Semantic|Linting|\d+\. Line)", l)]
        raise CheckError("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, "\n".join(tail[:20] + ["..."] + tail[-60:])))
    return r


def tlc_batch(module, cases, cfg=None, env=None, timeout=600, shards=None, heap="3g", args=(), drop_overflow=False):
    """Feeds cases (JSON values) to a batch spec (environment CASES names an ndjson
    file), sharded over several TLC processes. -> (TLCResult list, {case index: json} by tag)"""
    if not cases:
        return [], {}
    n = shards or max(min(NPROC, max(1, (len(cases) + 19) // 20)), (len(cases) + 249) // 250)
    d = newdir("c")
    parts = [list(range(k, len(cases), n)) for k in range(n)]
    parts = [p for p in parts if p]
    tags = {}
    results = []

    def job(part, name):
        path = os.path.join(d, "cases%s.ndjson" % name)
        with open(path, "w") as f:
            for i in part:
                f.write(json.dumps(cases[i]) + "\n")
        e = {"CASES": path}
        if env:
            e.update(env)
        try:
            return [(part, tlc(module, cfg, e, args, timeout, heap))]
        except CheckError as x:
            # numbers beyond TLC's 32 bits: no verdict for that case
            if not drop_overflow or "verflow when computing" not in str(x):
                raise
            if len(part) == 1:
                return []
            h = len(part) // 2
            return job(part[:h], name + "a") + job(part[h:], name + "b")

    with ThreadPoolExecutor(NPROC) as ex:
        pairs = sum(ex.map(lambda k: job(parts[k], str(k)), range(len(parts))), [])
    results = [r for _, r in pairs]
    for part, r in pairs:
        for tag, i, val in r.prints:
            tags.setdefault(tag, {}).setdefault(part[i - 1], []).append(val)
    shutil.rmtree(d, ignore_errors=True)
    return results, tags


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = load_known().get(pid, [])
        self.rng = random.Random("%s-%d-%s" % (pid, SEED, TIER))
        self.replaydir = os.path.join(VERIF, "evidence", "replay-" + pid)
        shutil.rmtree(self.replaydir, ignore_errors=True)

    def add_tlc(self, results, what=None):
        if isinstance(results, TLCResult):
            results = [results]
        for r in results:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.states
        if what:
            self.cov.setdefault("model_runs", {})
            m = self.cov["model_runs"].setdefault(what, {"states": 0, "transitions": 0})
            m["states"] += sum(r.distinct for r in results)
            m["transitions"] += sum(r.states for r in results)

    def traces(self, n, what=None):
        self.cov["traces_validated_against_impl"] += n
        if what:
            d = self.cov.setdefault("traces_by_kind", {})
            d[what] = d.get(what, 0) + n

    def count(self, key, n=1):
        d = self.cov.setdefault("counts", {})
        d[key] = d.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, what, **data):
        """Records a confirmed violation, with a directory from which it can be replayed."""
        k = len(self.violations) + 1
        if k <= 20:
            d = os.path.join(self.replaydir, str(k))
            os.makedirs(d, exist_ok=True)
            files = data.pop("files", {})
            write_files(d, files)
            with open(os.path.join(d, "violation.json"), "w") as f:
                json.dump(dict(property=self.pid, what=what, **data), f, indent=1, default=str)
        else:
            d = self.replaydir
        self.violations.append((what, d))
        if k >= 12:
            raise Enough()

    def known_finding(self, what):
        print("KNOWN-FINDING: property=%s %s" % (self.pid, what))

    def finish(self):
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for what, d in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
            print("    " + str(what)[:300].replace("\n", " "))
        print("%s %s: %d violations, %d states, %d traces, %.1fs" % (
            self.pid, TIER, len(self.violations), self.cov.get("states", 0),
            self.cov.get("traces_validated_against_impl", 0), time.time() - self.t0))
        return 1 if self.violations else 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    res = {}
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            res.setdefault(k["property"], []).append(k)
    return res


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    def late(signum, frame):
        raise CheckError("out of time")

    signal.signal(signal.SIGALRM, late)
    if not THOROUGH:
        signal.alarm(800)
    try:
        try:
            fn(c)
        except Enough:
            pass
        signal.alarm(0)
        rc = c.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        if c.violations:      # what was already confirmed stands
            sys.exit(c.finish())
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(rc)


def hexs(b):
    return None if b is None else b.hex()
