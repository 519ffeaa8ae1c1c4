#!/usr/bin/env python3
"""Development helper: makes and confirms planted bugs.
seed.py make ID PROPERTY NEEDS BREAKS  reads the change from /tmp/seed/repo (a copy of /repo), main.rs from /tmp/seed/main.rs
seed.py confirm ID...   demo passes on the plain copy; with the patch: builds, stable tests pass, demo fails
seed.py catch ID [CHECK...]  apply to /repo, run the quick checks (default: its property), undo"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/seed"; R = S + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def copy():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(R): sh("cp -a /repo " + R)
    print(sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git status --short" % R).stdout, end="")
def tests():
    p = sh("cd %s && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target cargo test --offline 2>&1" % (R, S))
    return p.returncode == 0, p.stdout
def demo(i):
    p = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R)
    return p.returncode, p.stdout
a = sys.argv[1:]
if a[0] == "copy": copy()
elif a[0] == "make":
    i, prop, needs, breaks = a[1:5]
    d = "%s/seeded/%s" % (V, i); os.makedirs(d, exist_ok=True)
    p = sh("git -C %s diff" % R).stdout
    assert p.strip()
    open(d + "/patch.diff", "w").write(p)
    shutil.copy(S + "/main.rs", d + "/main.rs")
    shutil.copy(V + "/tools/demo_common.rs", d + "/common.rs")
    shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
    shutil.copy(V + "/tools/demo.lock", d + "/demo.lock")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -q -- ." % R)
elif a[0] == "confirm":
    copy()
    for i in a[1:]:
        r0, o0 = demo(i)
        q = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, i))
        if q.returncode: print(i, "APPLY", q.stdout); continue
        t, o = tests()
        r1, o1 = demo(i)
        sh("git -C %s checkout -q -- ." % R)
        good = r0 == 0 and t and r1 not in (0, 8)
        print(i, "CONFIRMED" if good else "BAD", "plain=%d tests=%s patched=%d: %s" % (r0, t, r1, o1.strip()[-200:]))
        if not good: print(o0[:1200], "" if t else o[-600:])
elif a[0] == "catch":
    for i in a[1:]:
        prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        assert not sh("git -C /repo status --short").stdout
        q = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
        try:
            p = sh("python3 check.py %s quick" % prop, cwd=V)
        finally:
            sh("git -C /repo checkout -- .")
        print(i, prop, {0: "MISSED", 1: "caught"}.get(p.returncode, "NO ANSWER"), "|", p.stdout.strip().replace("\n", " | ")[-600:], flush=True)
