"""setup: every specification parses; every field of a recorded answer matters (TLC rejects records in which it is altered);
the faulty variants of the session model are rejected.  Nothing here decides a property."""
import glob
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
REPO = os.environ.get("SPGREP_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import runner  # noqa: E402

SPEC = os.path.join(os.path.dirname(HERE), "spec")
CHECKS = ["c01", "c03", "c05", "c06", "c07", "c08", "c09", "c10", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c21", "c22"]
PER, TRIES = 3, 5


def parse():
    mods = sorted(glob.glob(os.path.join(SPEC, "*.tla")))
    p = subprocess.run(["java", "-cp", runner.TLAJAR, "tla2sany.SANY", *[os.path.basename(m) for m in mods]], cwd=SPEC, capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout:
        print(p.stdout[-3000:])
        sys.exit(1)
    print("parsed", len(mods), "modules")


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, x


def family(path):
    return ".".join("*" if isinstance(p, int) else p for p in path)


def put(case, path, v):
    c = json.loads(json.dumps(case))
    x = c
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v
    return c


def altered(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return "raises:Altered" if v == "ok" else v + "x"
    return v + rng.choice([1, -1]) * (1 if abs(v) < 50 and rng.random() < 0.5 else 700)


def alter(name):
    """[(spec, kind, field, case)]"""
    import proj
    runner._quiet()
    proj.TIMEOUTS[0] = 0
    mod = importlib.import_module("check_" + name)
    rng, t0 = random.Random(name), time.time()
    have, out = {}, []
    for n, (spec, case, info) in enumerate(mod.cases("quick", 1, 3, 8)):
        if n > 6000 or time.time() - t0 > 20:
            break
        kind = re.sub(r"^(conv|prim)-.*", r"\1", str(case.get("kind", info.get("kind", ""))))
        if not info.get("nontrivial", True) or have.get((spec, kind), 0) >= PER or len(json.dumps(case)) > 60000:
            continue
        have[spec, kind] = have.get((spec, kind), 0) + 1
        out.append((spec, kind, "", case))
        groups = {}
        src = {k: case[k] for k in ("ans", "first", "firstseen", "steps") if k in case}
        for path, v in leaves(src):
            groups.setdefault(family(path), []).append((path, v))
        for fam, ls in groups.items():
            for path, v in rng.sample(ls, min(TRIES, len(ls))):
                out.append((spec, kind, fam, put(case, path, altered(v, rng))))
    return out


def session_faults():
    """the implementation-level session model must violate its contract as soon as one of the five faults is switched on"""
    src = open(os.path.join(SPEC, "SessionImpl.cfg")).read()
    work = tempfile.mkdtemp(prefix="spgst_")
    try:
        for fault in ("inplace", "alias", "global", "memo", "scratch"):
            cfg = os.path.join(work, fault + ".cfg")
            with open(cfg, "w") as f:
                f.write(src.replace('"none"', '"%s"' % fault))
            out, st = runner.tlc("SessionImpl", cfg=cfg, workers=4)
            m = re.search(r"(Invariant \w+ is violated|Temporal properties were violated|Action property .* is violated)", out)
            print("SessionImpl with fault %s: %s" % (fault, m.group(1) if m else "NOT REJECTED"))
            if not m:
                sys.exit(1)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    parse()
    session_faults()
    if "--alter" not in sys.argv:
        return
    import concurrent.futures as cf
    import multiprocessing as mp
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("spawn")) as ex:
        alls = dict(zip(CHECKS, ex.map(alter, CHECKS)))
    work = tempfile.mkdtemp(prefix="spgst_")
    bad = 0
    try:
        jobs = []
        for name, lst in alls.items():
            for spec in sorted({x[0] for x in lst}):
                jobs.append((name, spec, [x for x in lst if x[0] == spec]))
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [(n, s, l, ex.submit(runner.judge, s, [x[3] for x in l], work, n + s)) for n, s, l in jobs]
        for name, spec, lst, f in futs:
            try:
                v, _ = f.result()
            except runner.Machinery as e:
                print("%s/%s: the specification does not evaluate on an altered record: %s" % (name, spec, str(e)[:300]))
                bad += 1
                continue
            tab = {}
            for (s, kind, fam, c), cl in zip(lst, v):
                if fam:
                    t = tab.setdefault((kind, fam), [0, 0])
                    t[0] += 1
                    t[1] += cl != "ok"
            dead = sorted(k for k, t in tab.items() if t[1] == 0 and k[1] not in IGNORED)
            print("%s/%s: %d altered records, %d rejected; fields never rejected: %s" % (name, spec, sum(t[0] for t in tab.values()), sum(t[1] for t in tab.values()), dead))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if bad else 0)


IGNORED = set()
if __name__ == "__main__":
    main()
