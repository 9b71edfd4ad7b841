"""seeds.py new ID FILE PROPERTY < json{old,new,needs,breaks,demo}   - create a planted bug
seeds.py confirm [ID..]    - in scratch copies: applies, tests pass, demo fails with it and passes without
seeds.py catch [ID..] [--all]  - which checks catch it (its own property's check, or all)"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="agg", PYTHONHASHSEED="0")
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="seedwork_")
    subprocess.run("git -C /repo archive HEAD | tar -x -C " + d, shell=True, check=True)
    return d


def new(sid, file, prop):
    spec = json.load(sys.stdin)
    d = copy()
    p = os.path.join(d, file)
    txt = open(p).read()
    edits = spec["edits"] if "edits" in spec else [[spec["old"], spec["new"]]]
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=d, check=True)
    for old, nw in edits:
        assert txt.count(old) == 1, (sid, txt.count(old), old)
        txt = txt.replace(old, nw)
    open(p, "w").write(txt)
    out = os.path.join(S, sid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    open(os.path.join(out, "demo.py"), "w").write(spec["demo"])
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(d)


def apply(sid):
    d = copy()
    r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.join(S, sid, "patch.diff")], cwd="/", capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    return d


def confirm(sid):
    d0, d = copy(), apply(sid)
    try:
        sh = os.path.join(S, sid, "demo.sh")
        a = subprocess.run(["bash", sh], cwd=d0, env=ENV, capture_output=True, text=True, timeout=300)
        b = subprocess.run(["bash", sh], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d + "/src"), capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        return "%-28s %s demo clean=%d patched=%d tests=%s %s" % (sid, "CONFIRMED" if ok else "REJECTED", a.returncode, b.returncode, t.stdout.strip().splitlines()[-1][:80], "" if ok else (a.stderr[-300:] if a.returncode else "") + (t.stdout[-600:] if t.returncode else "") + b.stdout[-200:])
    finally:
        shutil.rmtree(d0)
        shutil.rmtree(d)


def catch(sid, props):
    d = apply(sid)
    ev = tempfile.mkdtemp(prefix="seedev_")
    out = []
    try:
        for p in props or [json.load(open(os.path.join(S, sid, "meta.json")))["property"]]:
            r = subprocess.run([PY, os.path.join(V, "harness", "check.py"), p, "quick"], cwd=V, env=dict(ENV, SPGREP_REPO=d, VERIF_EVIDENCE=ev, VERIF_SEED="1"), capture_output=True, text=True)
            cl = [l.strip()[:110] for l in r.stdout.splitlines() if "clause" in l][:1]
            out.append("%s:%s %s" % (p, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERROR%d" % r.returncode), cl or r.stdout[-200:] if r.returncode else ""))
    finally:
        shutil.rmtree(d)
        shutil.rmtree(ev)
    return "%-28s %s" % (sid, " | ".join(out))


if __name__ == "__main__":
    cmd, args = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    if cmd == "new":
        new(*args)
    else:
        ids = args or sorted(os.listdir(S))
        if cmd == "confirm":
            with concurrent.futures.ThreadPoolExecutor(6) as ex:
                for r in ex.map(confirm, ids):
                    print(r, flush=True)
        else:
            props = ["C%02d" % i for i in range(1, 23)] if "--all" in sys.argv else None
            with concurrent.futures.ThreadPoolExecutor(2) as ex:
                for r in ex.map(lambda i: catch(i, props), ids):
                    print(r, flush=True)
