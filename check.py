#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--scale X] [--only facet,...] [--shards N]
Environment: VERIF_SEED, VERIF_TIER (quick|thorough)."""
import sys, os, json, time, subprocess, tempfile, shutil, argparse, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import build as B

PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"


def env():
    e = dict(os.environ)
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    e.update(LD_PRELOAD=asan, OMP_NUM_THREADS="1", OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             ASAN_OPTIONS="detect_leaks=0:exitcode=77:max_malloc_fill_size=65536:quarantine_size_mb=48:"
                          "allocator_may_return_null=1:detect_stack_use_after_return=1:abort_on_error=0:disable_coredump=1:handle_abort=1:fast_unwind_on_malloc=1:malloc_context_size=6",
             PYTHONHASHSEED="0", LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
    e.pop("APOP_DB_ENGINE", None)
    return e


def launch(args, tmp, k):
    out = os.path.join(tmp, "out%s.json" % k)
    args = dict(args, out=out)
    p = subprocess.Popen([PY, os.path.join(HERE, "lib", "shard.py"), json.dumps(args)], env=env(), cwd=tmp,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p, out


def finish(p, out):
    o, _ = p.communicate()
    if p.returncode or not os.path.exists(out):
        return None, o[-4000:]
    return json.load(open(out)), o[-4000:]


def replay(prop, rec, lib, tmp, k="r"):
    p, out = launch({"mode": "replay", "prop": prop, "rec": rec, "lib": lib}, tmp, k)
    r, o = finish(p, out)
    if r is None:
        print(o, file=sys.stderr)
        raise SystemExit(2)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        lib, _ = B.build()
    except B.BuildError as e:
        print("build error:", e, file=sys.stderr)
        return 2
    tmp = tempfile.mkdtemp(prefix="apcheck-")
    try:
        if a.replay:
            rec = json.load(open(a.replay))
            r = replay(prop, rec, lib, tmp)
            print(r[0], r[1])
            return 1 if r[0] == "bad" else 0
        return check(a, prop, tier, seed, lib, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, prop, tier, seed, lib, tmp, t0):
    kf = os.path.join(HERE, "known_findings.json")
    findings = json.load(open(kf))["findings"] if os.path.exists(kf) else []
    procs = []
    base = {"mode": "shard", "prop": prop, "tier": tier, "seed": seed, "nshards": a.shards, "lib": lib,
            "scale": a.scale, "only": a.only.split(",") if a.only else None}
    for k in range(a.shards):
        procs.append(launch(dict(base, shard=k), tmp, k))
    # listed findings: each must still fail, on exactly its listed input; said out loud, never a violation
    for i, f in enumerate(x for x in findings if x["property"] == prop and x["status"] == "known"):
        r = replay(prop, {"facet": f["facet"], "case": f["case"]}, lib, tmp, "k%d" % i)
        if r[0] == "bad":
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    results, err = [], None
    for p, out in procs:
        r, o = finish(p, out)
        if r is None:
            err = o
        else:
            results.append(r)
    if err is not None:
        print("a shard failed:\n" + err, file=sys.stderr)
        return 2
    import importlib.util
    facets, nt = {}, set()
    samples = []
    for r in results:
        for n, f in r["facets"].items():
            g = facets.setdefault(n, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "excluded_known": 0, "_nt": set(), "wall_s": 0})
            g["evaluations"] += f["evaluations"]
            g["excluded_known"] += f["excluded_known"]
            g["wall_s"] = round(max(g["wall_s"], f["wall_s"]), 1)
            g["_nt"].update(f["nt"])
            for l, c in f["labels"].items():
                g["labels"][l] = g["labels"].get(l, 0) + c
            if f["samples"] and len([s for s in samples if s["facet"] == n]) < 2:
                samples.append({"facet": n, "case": f["samples"][0]})
    for n, g in facets.items():
        g["distinct_nontrivial"] = len(g.pop("_nt"))
    ev = sum(g["evaluations"] for g in facets.values())
    dn = sum(g["distinct_nontrivial"] for g in facets.values())
    failures = [r["failure"] for r in results if r["failure"]]
    unrep = [u for r in results for u in r["unreproduced"]]
    failures.sort(key=lambda f: len(json.dumps(f.get("case") or f.get("sequence"))))
    confirmed = None
    for i, f in enumerate(failures[:4]):
        rs = [replay(prop, f, lib, tmp, "v%d_%d" % (i, j)) for j in range(3)]
        if all(r[0] == "bad" for r in rs):
            confirmed = f
            f["message"] = rs[0][1]
            break
        unrep.append({"facet": f["facet"], "message": f["message"][:600], "case": f.get("case")})
    rule = doc(prop)
    cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": rule["RULE"], "samples": samples or ["none"],
           "facets": facets, "inconclusive": sum(r["inconclusive"] for r in results),
           "unreproduced": unrep[:5]}
    evd = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": rule["ASSUMPTIONS"], "wall_s": round(time.time() - t0, 1), "violations": 1 if confirmed else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (prop, tier, seed, ev, dn, time.time() - t0))
    if a.v or os.environ.get("VERIF_VERBOSE"):
        for n, g in facets.items():
            print("   ", n, json.dumps(g))
        for u in unrep:
            print("    UNREPRODUCED", json.dumps(u)[:1500])
    if confirmed:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (prop, confirmed["facet"]))
        with open(rp, "w") as f:
            json.dump(confirmed, f, indent=1)
        print(confirmed["message"][:3000])
        print("case: " + json.dumps(confirmed.get("case") or confirmed.get("sequence"))[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


def doc(prop):
    """RULE and ASSUMPTIONS of the property module, without importing it (no Hypothesis here)"""
    import ast
    t = ast.parse(open(os.path.join(HERE, "props", prop + ".py")).read())
    out = {"RULE": "", "ASSUMPTIONS": []}
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in out if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


if __name__ == "__main__":
    sys.exit(main())
