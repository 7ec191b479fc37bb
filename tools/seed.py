#!/usr/bin/env python3
"""seed.py new ID        patch.diff of seeded/ID from the scratch copy /tmp/wt, plus the common demo files
   seed.py verify ID..   in a scratch copy: applies, original lines only, builds, tests pass, demo 0 / nonzero
   seed.py check ID..    apply to /repo, run the check of its property, undo"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
def seeddir(pid):
    """bugs in .tcc files are kept apart: they are not counted as planted"""
    t = V + "/planted-tcc/" + pid
    return t if os.path.isdir(t) else V + "/seeded/" + pid
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def mine():
    """commits of ours in /repo"""
    return set(sh("git -C /repo log --format=%H --grep='^fix:'").stdout.split())
def fresh():
    if not os.path.isdir(WT): sh("cp -a /repo " + WT)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (WT, WT, WT))
def original_only(pid):
    m, bad = mine(), []
    cur = None; line = 0; rem = 0
    for l in open(seeddir(pid) + "/patch.diff"):
        if l.startswith("--- a/"): cur = l[6:].strip()
        elif l.startswith("@@"): line = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git -C /repo blame -l -s -L %d,%d HEAD -- %s" % (line, line, cur)).stdout.split()[0].lstrip("^")
            rem += 1
            if any(x.startswith(b) or b.startswith(x[:39]) for x in m): bad.append("%s:%d" % (cur, line))
            line += 1
        elif l.startswith(" "): line += 1
    return rem, bad
def new(pid):
    d = seeddir( pid )
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % WT).stdout)
    shutil.copytree(V + "/tools/seedbase/stubs", d + "/stubs", dirs_exist_ok=True)
    shutil.copy(V + "/tools/seedbase/demo.sh", d + "/demo.sh")
    print(open(d + "/patch.diff").read())
def verify(pid):
    d = seeddir( pid )
    rem, bad = original_only(pid)
    print(pid, "original lines removed:", rem, "ours touched:", bad)
    fresh()
    t = sh("bash %s/demo.sh" % d, cwd=WT)
    print("  clean demo rc", t.returncode, t.stdout.strip().splitlines()[-3:] if t.returncode else "")
    a = sh("git -C %s apply %s/patch.diff" % (WT, d))
    if a.returncode: print("  does not apply", a.stdout); return
    p = sh("bash %s/demo.sh" % d, cwd=WT)
    print("  patched demo rc", p.returncode, p.stdout.strip().splitlines()[-3:])
    sh("git -C /repo apply %s/patch.diff" % d)
    try:
        b = sh("bash /opt/vp/build.sh"); s = sh("bash /opt/vp/test.sh /tmp/seed-t.json")
        print("  build", b.returncode, s.stdout.strip().splitlines()[-1])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    sh("git -C %s checkout -q -- ." % WT)
def check(pid, props=None):
    d = seeddir( pid )
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print("does not apply", a.stdout); return
    try:
        for p in props:
            r = sh("bin/check %s quick" % p, cwd=V)
            print(pid, p, "rc", r.returncode, "|".join(r.stdout.strip().splitlines()[-4:]))
    finally:
        sh("git -C /repo checkout -- .")
if sys.argv[1] == "new": new(sys.argv[2])
elif sys.argv[1] == "fresh": fresh()
else:
    for i in sys.argv[2:]:
        if sys.argv[1] == "verify": verify(i)
        else:
            i, _, p = i.partition(":")
            check(i, p.split(",") if p else None)
