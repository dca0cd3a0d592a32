"""Confirms a planted bug. Usage:
   plant.py start            makes /tmp/plant/work, a copy of /repo to edit
   plant.py make ID PROP     takes the edit in the copy as seeded/ID/patch.diff; body of the demo
                             from /tmp/plant/demo.sh (if there); builds, tests, demos, runs the check
   plant.py again ID [PROP]  applies seeded/ID/patch.diff to the copy and runs the check only
   plant.py all [PROP..]     'again' for every planted bug (of these properties)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/work"
ENV = {"HOME": "/root", "LC_ALL": "C", "PATH": "/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("latin1")


def start():
    if not os.path.isdir(W):
        os.makedirs("/tmp/plant", exist_ok=True)
        sh(["cp", "-a", "/repo", W])
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdq -e _build", cwd=W)


def build():
    rc, o = sh(["make", "-j8", "-f", "GccWin64.mak", "-f", "/opt/vp/deps.mk", "OUTD=_build/win64", "name=uasm", "ALL"], cwd=W, env=ENV)
    if rc:
        print(o[-2000:]); sys.exit("does not build")


def tests():
    pre = "/tmp/plant/wine"
    if not os.path.isdir(pre):
        os.makedirs(pre + "/dosdevices")
        for n in ("system.reg", "user.reg", "userdef.reg", ".update-timestamp"):
            shutil.copy2("/opt/vp/wine/" + n, pre + "/" + n)
        os.symlink("/opt/vp/wine/drive_c", pre + "/drive_c")
        os.symlink("../drive_c", pre + "/dosdevices/c:")
        os.symlink("/", pre + "/dosdevices/z:")
    env = {"HOME": "/root", "LC_ALL": "C", "LANG": "C", "TZ": "UTC", "WINEPREFIX": pre, "WINEDEBUG": "-all", "WINEARCH": "win64",
           "WINEDLLOVERRIDES": "mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d"}
    shutil.rmtree("/tmp/plant/regress", ignore_errors=True)
    sh(["python3", "/opt/vp/runtests.py", W + "/_build/win64/uasm.exe", "/tmp/plant/regress", "/tmp/plant/results.txt"], env=env)
    sh(["wineserver", "-k"], env=env)
    ok = {l.split(None, 1)[1].strip() for l in open("/tmp/plant/results.txt") if l.startswith("PASS")}
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [t for t in base if t not in ok and t.split("::")[-1] not in ok]
    return miss


def demo(pid, cwd):
    d = "/tmp/plant/demo_copy"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(V + "/seeded/" + pid, d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    rc, o = sh(["bash", d + "/demo.sh"], cwd=cwd, timeout=300)
    return rc, o


def check(prop):
    env = {"VERIF_REPO": W, "VERIF_BUILD_CACHE": "/tmp/vbc", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
    rc, o = sh(["python3", "checks/%s.py" % prop.lower()], cwd=V, env=env)
    return rc, o


def main():
    a = sys.argv[1:]
    if a[0] == "start":
        return start()
    if a[0] == "make":
        pid, prop = a[1], a[2]
        d = V + "/seeded/" + pid
        os.makedirs(d, exist_ok=True)
        rc, diff = sh(["git", "diff"], cwd=W)
        if not diff.strip():
            sys.exit("no change")
        p = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE)
        open(d + "/patch.diff", "wb").write(p.stdout)
        if os.path.exists("/tmp/plant/demo.sh"):
            open(d + "/demo.sh", "w").write(open(V + "/tools/demo_head.sh").read() + open("/tmp/plant/demo.sh").read())
            os.unlink("/tmp/plant/demo.sh")
        needs, breaks = a[3], a[4]
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        build()
        m = tests()
        print("tests missing:", m[:5], len(m))
        print("demo clean:", demo(pid, "/repo"))
        print("demo bug:  ", demo(pid, W))
        rc, o = sh(["git", "apply", "--check", d + "/patch.diff"], cwd="/repo")
        print("applies:", rc, o)
        if os.path.exists(V + "/checks/%s.py" % prop.lower()):
            rc, o = check(prop)
            print("check: exit", rc, "\n".join(o.splitlines()[-6:]))
        sh("git checkout -- .", cwd=W)
        return
    if a[0] == "again":
        pids = [a[1]]
    else:
        pids = sorted(os.listdir(V + "/seeded"))
    for pid in pids:
        meta = json.load(open(V + "/seeded/%s/meta.json" % pid))
        prop = meta["property"]
        if a[0] == "all" and len(a) > 1 and prop not in a[1:]:
            continue
        if a[0] == "again" and len(a) > 2:
            prop = a[2]
        start()
        rc, o = sh(["git", "apply", V + "/seeded/%s/patch.diff" % pid], cwd=W)
        if rc:
            print(pid, "does not apply", o); continue
        if not os.path.exists(V + "/checks/%s.py" % prop.lower()):
            print(pid, prop, "no check"); sh("git checkout -- .", cwd=W); continue
        rc, o = check(prop)
        print(pid, prop, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % prop in o else "MISSED exit %d" % rc, o.splitlines()[-1] if o else "")
        if a[0] == "again":
            print("\n".join(o.splitlines()[-8:]))
        sh("git checkout -- .", cwd=W)


if __name__ == "__main__":
    main()
