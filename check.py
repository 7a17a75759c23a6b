#!/usr/bin/env python3
"""check.py PROP — decide one property against /repo's current source.

1. every contract group of contracts/PROP.py: obligations generated by executing the real source of /repo (mechanically
   rewritten on this run, see engine/loader.py) over symbolic inputs, discharged by the tensor normaliser and z3;
2. the same postconditions evaluated on concrete executions of the unmodified code under the repository's interpreter
   (runtime/PROP.py): the bounded stand-in, and the search for / replay of a failing input.
Exit 0 held, 1 VIOLATION, 2 undecided (machinery error)."""
import sys, os, json, time, subprocess, threading, queue, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VT = shutil.which("python3-vt") or sys.executable
PP = "/opt/pvenv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")


def run(cmd, timeout):
    p = subprocess.Popen(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return None, "", "no answer within %g s" % timeout


def runtime_worker(prop, seed, secs, tmp, tag, extra=()):
    out = os.path.join(tmp, "rt_%s.json" % tag)
    rc, o, e = run([PP, os.path.join(HERE, "runtime", "rt.py"), prop, "--seed", str(seed), "--time", str(secs), "--out", out] + list(extra), 3 * secs + 420)
    try: return json.load(open(out))
    except Exception: return {"crash": "rc=%s %s" % (rc, (e or o)[-1500:])}


def replay(prop, f):
    rc, o, e = run([PP, os.path.join(HERE, "runtime", "rt.py"), prop, "--case", f["case"], "--caseseed", str(f["seed"])], 400)
    return rc == 1, (o + e)[-3000:]


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            if l.startswith("finding: property=%s " % prop):
                d = dict(x.split("=", 1) for x in l.split("|")[0].split()[1:])
                out.append((d.get("case"), d.get("match", "").replace("_", " "), l.split("|", 1)[1].strip() if "|" in l else ""))
    except OSError: pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    thorough = tier == "thorough"
    secs = float(os.environ.get("VERIF_RT_S", "150" if thorough else "17"))
    plimit = 420 if thorough else 100
    ncpu = os.cpu_count() or 4
    W = max(2, min(8, ncpu) - 1) if thorough else max(2, min(6, ncpu - 2))
    tmp = os.path.join("/tmp", "verif_%s_%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    rts, groups = [], []
    lock = threading.Lock()

    def rtw(w):
        r = runtime_worker(prop, seed * 1000 + w, secs, tmp, str(w))
        if "crash" in r: r = runtime_worker(prop, seed * 1000 + w, secs, tmp, str(w) + "b")
        with lock: rts.append(r)

    def prover():
        if not os.path.exists(os.path.join(HERE, "contracts", prop + ".py")): return
        rc, o, e = run([VT, "tools/prove.py", prop, "-1", "10"], 60)
        try: names = json.loads(o)
        except Exception:
            with lock: groups.append({"group": "*", "functions": [], "bound": "", "error": "contract sources do not load: " + (e or o)[-800:], "proof": None, "bounded": None})
            return
        q = queue.Queue()
        for i, n in enumerate(names): q.put((i, n))

        def work():
            while True:
                try: i, n = q.get_nowait()
                except queue.Empty: return
                rc, o, e = run([VT, "tools/prove.py", prop, str(i), str(plimit)], 2 * plimit + 30)
                try: g = json.loads(o)
                except Exception: g = {"group": n, "functions": [], "bound": "", "error": "prover gave no answer (rc=%s): %s" % (rc, (e or o)[-600:]), "proof": None, "bounded": None}
                with lock: groups.append(g)
        ths = [threading.Thread(target=work) for _ in range(4 if not thorough else 5)]
        for t in ths: t.start()
        for t in ths: t.join()

    ths = [threading.Thread(target=rtw, args=(w,)) for w in range(W)] + [threading.Thread(target=prover)]
    for t in ths: t.start()
    for t in ths: t.join()

    # ---- verdict -----------------------------------------------------------------------------------
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    viol, notes, kf = [], [], []
    kn = known(prop)
    crashes = [r["crash"] for r in rts if "crash" in r]
    rts = [r for r in rts if "crash" not in r]
    fails = {}
    for r in rts:
        for f in r["failures"]: fails.setdefault(f["case"], f)

    def handle(fails):
        for name, f in sorted(fails.items()):
            hit = [k for k in kn if k[0] == name and k[1] in f["detail"]]
            if hit:
                kf.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2] or name))
                continue
            ok, log = replay(prop, f)
            if not ok:
                notes.append("not reproduced on replay, not reported: %s seed %s: %s" % (name, f["seed"], f["detail"][:300]))
                continue
            path = os.path.join("replay", "%s_%s.json" % (prop, name.replace("/", "_").replace(" ", "_")))
            json.dump({"property": prop, "kind": "concrete execution of the real code violates the contract", "case": name, "seed": f["seed"],
                       "functions": f["covers"], "input": f["input"], "detail": f["detail"], "log": log,
                       "replay": "tools/rt.sh %s --case %s --caseseed %s" % (prop, name, f["seed"])}, open(os.path.join(HERE, path), "w"), indent=1, default=str)
            viol.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("  contract violated: %s: %s" % (name, f["detail"][:400]))
    handle(fails)

    obl = dis = 0
    per, und, backends, z3s, z3n, assum = [], [], {}, 0.0, 0, set()
    bobl = bdis = 0
    suspects = []
    for g in sorted(groups, key=lambda g: g["group"]):
        pr, bo = g.get("proof"), g.get("bounded")
        rec = {"group": g["group"], "functions": g["functions"]}
        for lab, r in (("unbounded", pr), ("bounded", bo)):
            if r is None: continue
            n = sum(o["n"] for o in r["obligations"]); k = sum(o["ok"] for o in r["obligations"])
            rec[lab] = {"status": r["status"], "obligations": n, "discharged": k, "paths": r["paths"], "s": r["s"]}
            if r["unsupported"]: rec[lab]["unsupported"] = r["unsupported"][:3]
            z3s += r["z3_s"]; z3n += r["z3_calls"]; assum |= set(r.get("assumptions", []))
            for o in r["obligations"]: backends[o["backend"]] = backends.get(o["backend"], 0) + o["ok"]
            if lab == "unbounded": obl += n; dis += k
            else: bobl += n; bdis += k
        if bo is not None: rec["bound"] = g["bound"]
        per.append(rec)
        sp = pr["status"] if pr else None
        sb = bo["status"] if bo else None
        if g.get("error"): und.append("%s: %s" % (g["group"], g["error"])); continue
        if sp == "proved" or (sp is None and sb == "proved"): continue
        if sp == "failed" and sb in ("failed", None) or sp in (None, "unsupported") and sb == "failed":
            r = bo if sb == "failed" else pr
            suspects.append((g, r))
            und.append("%s: obligation failed: %s" % (g["group"], ", ".join(o["name"] for o in r["obligations"] if o["ok"] < o["n"])[:300]))
        else:
            und.append("%s: unbounded %s, bounded %s: %s" % (g["group"], sp, sb, "; ".join(((pr or {}).get("unsupported") or []) + ((bo or {}).get("unsupported") or []))[:300]))
    if suspects and not viol:
        # search longer for a concrete failing input before reporting a bare failed obligation
        extra = {}
        res = []
        def rtx(w): res.append(runtime_worker(prop, seed * 1000 + 500 + w, 60 if not thorough else 120, tmp, "x%d" % w))
        ths = [threading.Thread(target=rtx, args=(w,)) for w in range(max(2, ncpu - 1))]
        for t in ths: t.start()
        for t in ths: t.join()
        for r in res:
            if "crash" in r: continue
            rts.append(r)
            for f in r["failures"]: extra.setdefault(f["case"], f)
        handle(extra)
        if not viol:
            for g, r in suspects:
                path = os.path.join("replay", "%s_obligation_%s.json" % (prop, g["group"].replace("/", "_").replace(" ", "_")))
                bad = [o for o in r["obligations"] if o["ok"] < o["n"]]
                json.dump({"property": prop, "kind": "undischarged proof obligation, no failing input found", "group": g["group"], "functions": g["functions"],
                           "failed_obligations": bad, "verifier_output": r, "replay": "python3-vt tools/t1.py %s %s" % (prop, g["group"])},
                          open(os.path.join(HERE, path), "w"), indent=1, default=str)
                print("  obligation failed: %s: %s" % (g["group"], "; ".join("%s: %s" % (o["name"], o["detail"][:200]) for o in bad)[:600]))
                viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
                break

    # ---- evidence ----------------------------------------------------------------------------------
    cases = {}
    for r in rts:
        for c in r["cases"]:
            d = cases.setdefault(c["case"], {"covers": c["covers"], "runs": 0, "distinct": 0, "checks": 0, "skipped": 0})
            for k in ("runs", "distinct", "checks", "skipped"): d[k] += c[k]
    samples = [c["sample"] for r in rts[:1] for c in r["cases"] if c["sample"]][:4]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    lev = [c for c in man["checks"] if c["property"] == prop]
    level = lev[0]["level"] if lev else "other"
    cov = {"evaluations": sum(c["runs"] for c in cases.values()), "distinct_nontrivial": sum(c["distinct"] for c in cases.values()),
           "rule": "runtime tier: pseudo-random inputs (sizes, dimensions, real/complex, gauge centre, call history) drawn per case from the seed; an execution counts if the drawn input satisfies the contract's precondition and its recorded input differs from the others of its worker; every execution evaluates the contract's postconditions against an independent dense reference",
           "samples": samples, "runtime_cases": cases, "assertions_evaluated": sum(c["checks"] for c in cases.values()), "workers": len(rts)}
    if groups:
        cov.update({"obligations": obl, "discharged": dis, "bounded_obligations": bobl, "bounded_discharged": bdis,
                    "checker_cmd": "python3-vt tools/prove.py %s <group> %g" % (prop, plimit), "backends": backends, "z3_seconds": round(z3s, 2), "z3_queries": z3n,
                    "functions_under_contract": sorted({f for g in per for f in g["functions"] if g.get("unbounded", {}).get("status") == "proved"}),
                    "functions_bounded_only": sorted({f for g in per for f in g["functions"]} - {f for g in per for f in g["functions"] if g.get("unbounded", {}).get("status") == "proved"}),
                    "groups": per, "undischarged": und, "trusted_base": TRUST})
    else:
        cov["trusted_base"] = TRUST[-2:]
    cov["explanation"] = "see DESIGN.md, section %s" % prop
    if notes: cov["notes"] = notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": sorted(assum) + TRUST, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    shutil.rmtree(tmp, ignore_errors=True)
    for u in und: print("undischarged:", u[:300])
    for n in notes: print("note:", n)
    for k in sorted(set(kf)): print(k)
    print("%s %s: %d/%d unbounded obligations (%d/%d bounded) discharged in %d groups; %d executions, %d assertions; %.1f s" % (
        prop, tier, dis, obl, bdis, bobl, len(groups), cov["evaluations"], cov["assertions_evaluated"], time.time() - t0))
    if viol:
        for v in viol: print(v)
        return 1
    if crashes and not rts:
        print("ERROR: runtime tier crashed:", crashes[0])
        return 2
    if not rts or cov["assertions_evaluated"] == 0:
        print("ERROR: nothing was checked")
        return 2
    return 0


TRUST = ["exact arithmetic: tensor entries are treated as real/complex numbers, integers as mathematical; rounding is outside the proofs",
         "numpy/scipy/LAPACK operations obey the contracts in engine/arr.py (einsum semantics, reshape/transpose, isometric factors and reconstruction of qr/svd/eigh)",
         "the extraction (engine/loader.py) replaces imports of numpy by the symbolic front end and for/while loops over symbolic ranges by havoc-and-invariant blocks, and drops nothing else",
         "the Python interpreter, z3 4.x and the tensor normaliser (engine/tensor.py) are trusted",
         "runtime tier: numpy under PyPy, comparison tolerances 1e-9..1e-6 relative, stated per case",
         "dense references in runtime/*.py are written from the property statements"]

if __name__ == "__main__":
    sys.exit(main())
