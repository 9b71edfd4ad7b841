"""Sharded driver: generate cases by driving the code, let TLC judge them, aggregate the verdicts."""
import concurrent.futures
import concurrent.futures.process
import hashlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NSHARD = 8


class Machinery(Exception):
    pass


def tlc(module, cfg=None, env=None, workers=1, heap="2g", extra=(), timeout=840, cwd=None):
    """run TLC; returns (stdout, stats)"""
    meta = tempfile.mkdtemp(prefix="tlc_")
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta, "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module + ".cfg"), *extra, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.pop("LD_PRELOAD", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout, preexec_fn=_unlimit)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    m2 = re.search(r"The number of states generated: (\d+)", out)
    st = {"states": int(m.group(2)) if m else 0, "transitions": int(m.group(1)) if m else (int(m2.group(1)) if m2 else 0), "rc": p.returncode}
    return out + p.stderr, st


def judge(module, cases, workdir, tag, heap="2g", timeout=840):
    """one TLC run over a list of cases -> verdict list (clause per case), stats"""
    if not cases:
        return [], {"states": 0, "transitions": 0}
    path = os.path.join(workdir, "cases_%s.json" % tag)
    verdict, total, todo = {}, {"states": 0, "transitions": 0}, list(range(1, len(cases) + 1))
    for attempt in range(12):
        batch = todo
        with open(path, "w") as f:
            json.dump([cases[i - 1] for i in batch], f, separators=(",", ":"))
        out, st = tlc(module, env={"CASES": path}, heap=heap, timeout=timeout)
        for x in total:
            total[x] += st[x]
        for m in re.finditer(r'"V\|(\d+)\|([^|"]*)\|([^"]*)"', out):
            i, c = batch[int(m.group(1)) - 1], m.group(3)
            if verdict.get(i, c) != c:
                raise Machinery("two verdicts for case %d: %s %s" % (i, c, verdict[i]))
            verdict[i] = c
        todo = [i for i in batch if i not in verdict]
        last = re.findall(r"^/\\ ci = (\d+)", out, re.M)
        if not todo or not last or "unexpected exception" not in out or "Attempted to" not in out or batch[int(last[-1]) - 1] not in todo:
            break
        # an answer which the specification cannot even interpret (an index out of range, a value of another type)
        culprit = batch[int(last[-1]) - 1]
        for i in todo if attempt == 11 else [culprit]:
            verdict[i] = "unreadable-answer"
        todo = [i for i in todo if i not in verdict]
        if not todo:
            st["rc"] = 0
            break
    missing = [i for i in range(1, len(cases) + 1) if i not in verdict]
    if missing or st["rc"] != 0:
        keep = os.path.join(VERIF, "evidence", "machinery_%s_%s" % (module, tag))
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        open(keep + ".out", "w").write(out)
        if missing:
            json.dump(cases[missing[0] - 1], open(keep + ".json", "w"))
        raise Machinery("TLC gave no verdict for %d of %d cases (rc %s), see %s.out" % (len(missing), len(cases), st["rc"], keep))
    os.unlink(path)
    return [verdict[i] for i in range(1, len(cases) + 1)], total


def _unlimit():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def _quiet():
    # spglib writes to the C stderr
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)


def _shard(args):
    modname, tier, seed, shard, nshard, workdir = args
    sys.path.insert(0, HERE)
    _quiet()
    t0 = time.time()
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    try:
        import importlib
        import proj
        mod = importlib.import_module(modname)
        byspec, meta = {}, {}
        res, stats = [], {"states": 0, "transitions": 0}
        budget = 330 if tier == "quick" else 12000
        try:
            for spec, case, info in mod.cases(tier, seed, shard, nshard):
                byspec.setdefault(spec, []).append((case, info))
                if time.time() - t0 > budget:
                    break
        except proj.Stop:
            pass
        except ImportError:
            raise
        except Exception as e:  # noqa: BLE001
            # the answer of the code has no form the property allows: the driver could not read it
            tb = traceback.format_exc()
            res.append(("driver", "unreadable-answer", {"id": "shard%d" % shard, "kind": "driver", "exception": repr(e)[:200], "where": tb[-700:]}, {"traceback": tb}, hashlib.sha1(tb.encode()).hexdigest()))
        for x, y in getattr(mod, "EXTRA", {}).items():
            stats[x] += y
        tgen = time.time() - t0
        for spec, lst in byspec.items():
            chunk = getattr(mod, "CHUNK", 1500)
            for o in range(0, len(lst), chunk):
                part = lst[o:o + chunk]
                v, st = judge(spec, [c for c, _ in part], workdir, "%s_%d_%d" % (modname, shard, o))
                stats["states"] += st["states"]
                stats["transitions"] += st["transitions"]
                for (c, info), cl in zip(part, v):
                    res.append((spec, cl, info, c if cl != "ok" or len(res) < 2 else None, hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()))
        return "ok", res, stats, (tgen, time.time() - t0)
    except Exception:  # noqa: BLE001
        return "error", traceback.format_exc(), None, None


def run(prop, modname, tier, seed):
    """returns (results, stats, info) ; raises Machinery"""
    workdir = tempfile.mkdtemp(prefix="spgv_")
    try:
        args = [(modname, tier, seed, s, NSHARD, workdir) for s in range(NSHARD)]
        ctx = mp.get_context("spawn")
        with concurrent.futures.ProcessPoolExecutor(NSHARD, mp_context=ctx) as pool:
            try:
                outs = list(pool.map(_shard, args, chunksize=1))
            except concurrent.futures.process.BrokenProcessPool as e:
                raise Machinery("a worker process died: %s" % e)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    results, stats, times = [], {"states": 0, "transitions": 0}, []
    for st, res, s, t in outs:
        if st != "ok":
            raise Machinery(res)
        results += res
        stats["states"] += s["states"]
        stats["transitions"] += s["transitions"]
        times.append(t)
    return results, stats, times
