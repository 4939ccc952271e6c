#!/opt/veriftools/pyvenv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [--replay FILE]

Exit 0: held on everything explored; exit 1 + VIOLATION line otherwise."""

import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
REALPY = os.environ.get("VP_REALPY", "/opt/venv/bin/python")
NPROC = int(os.environ.get("VP_NPROC", "8"))


def real_env():
    e = dict(os.environ)
    e["PYTHONPATH"] = HERE
    e["VP_REPO"] = REPO
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def run_concrete(jobs, timeout=600):
    """run jobs on the real package under the repository's own interpreter"""
    if not jobs:
        return []
    n = min(NPROC, max(1, len(jobs)))
    chunks = [jobs[i::n] for i in range(n)]
    procs = []
    for c in chunks:
        d = tempfile.mkdtemp(prefix="vp_conc_")
        json.dump(c, open(d + "/jobs.json", "w"))
        p = subprocess.Popen(
            [REALPY, "-m", "symx.conc", d + "/jobs.json", d + "/out.json"],
            cwd=d,
            env=real_env(),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=open(d + "/err", "w"),
            start_new_session=True,
        )
        procs.append((p, d, c))
    t0 = time.time()
    outs = []
    for p, d, c in procs:
        try:
            p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            o = json.load(open(d + "/out.json"))
        except Exception:
            err = ""
            try:
                err = open(d + "/err").read()[-800:]
            except OSError:
                pass
            o = [dict(status="limit", error="no output: " + err)] * len(c)
        outs.append(o)
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    res = [None] * len(jobs)
    for i, o in enumerate(outs):
        for k, r in enumerate(o):
            res[i + k * n] = r
    return res


def sym_job(h, params, seed, limit, path):
    """in a forked child: explore one harness instance, write result json"""
    from symx import explore, loader

    t0 = time.time()
    os.chdir(tempfile.mkdtemp(prefix="vp_sym_"))
    cwd = os.getcwd()
    funcs = set()
    mon = sys.monitoring
    real = os.path.realpath(REPO)

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(real) or fn.startswith(REPO):
            funcs.add("%s:%s" % (os.path.relpath(fn, REPO), code.co_qualname))
        return mon.DISABLE

    mon.use_tool_id(3, "vp")
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
    o = h.opts
    ex = explore.Explorer(
        h.fn,
        params,
        seed=seed,
        max_paths=o.get("max_paths", 400),
        time_limit=limit,
        token_mode=o.get("tokens", False),
        feas_timeout=o.get("feas_timeout", 1500),
    )
    res = {}
    try:
        ex.run()
    except BaseException as e:
        res["crash"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    s = ex.st
    res.update(
        paths=s.paths,
        branches=s.branches,
        feas_queries=s.feas_queries,
        obligations=s.oblig,
        queries=s.queries,
        unsat=s.unsat,
        solver_s=s.solver_s,
        unknown_feas=s.unknown_feas,
        cut=s.cut,
        exhaustive=ex.exhaustive,
        max_terms=s.max_terms,
        violations=ex.violations,
        inconclusive=ex.inconclusive,
        errors=ex.errors,
        models=ex.models,
        labels=ex.labels,
        functions=sorted(funcs),
        wall=time.time() - t0,
    )
    json.dump(res, open(path, "w"), default=str)
    import shutil

    os.chdir("/")
    shutil.rmtree(cwd, ignore_errors=True)


def run_pool(jobs, seed, hard):
    """jobs: list of (h, params, limit); fork children, at most NPROC at once"""
    d = tempfile.mkdtemp(prefix="vp_pool_")
    res = [None] * len(jobs)
    running = {}
    nxt = 0
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][0].opts.get("cost", 1))
    try:
        while nxt < len(order) or running:
            while nxt < len(order) and len(running) < NPROC:
                i = order[nxt]
                nxt += 1
                h, params, limit = jobs[i]
                path = "%s/%d.json" % (d, i)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setsid()
                        if not os.environ.get("VP_DEBUG"):
                            dn = os.open(os.devnull, os.O_WRONLY)
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        import resource

                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        sym_job(h, params, seed, limit, path)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(0)
                running[pid] = (i, path, time.time() + limit * 1.5 + 40)
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.01)
                now = time.time()
                for p, (i, path, dl) in list(running.items()):
                    if now > dl:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except OSError:
                            pass
                continue
            if pid in running:
                i, path, dl = running.pop(pid)
                try:
                    res[i] = json.load(open(path))
                except Exception:
                    res[i] = dict(crash="worker died or ran out of time (status %s)" % st)
    finally:
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    return res


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def is_known(known, prop, hname, params, label):
    for k in known:
        if k["property"] != prop or k["harness"] != hname:
            continue
        if any(params.get(a) != b for a, b in k.get("params", {}).items()):
            continue
        if k.get("label") is not None and not label.startswith(k["label"]):
            continue
        return k
    return None


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = "-v" in args
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if "--replay" in args:
        j = json.load(open(args[args.index("--replay") + 1]))
        r = run_concrete([j["job"]])[0]
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] in ("fail", "timeout") else 0)

    from symx import base, loader, explore, ctx  # noqa

    loader.install()
    base.REGISTRY.clear()
    mod = importlib.import_module("props." + prop.lower())
    hs = list(base.REGISTRY)
    if only:
        hs = [h for h in hs if h.name == only or h.name.startswith(only)]
    pre_err = None
    for m in getattr(mod, "PRELOAD", []):
        try:
            importlib.import_module(m)
        except Exception as e:
            pre_err = "%s: %s" % (type(e).__name__, e)
    jobs = []
    for h in hs:
        ps = list(h.params) + (list(h.thorough) if tier == "thorough" else [])
        for p in ps:
            lim = h.opts.get("limit", 60)
            if tier == "thorough":
                lim = h.opts.get("tlimit", lim * 4)
            jobs.append((h, p, lim))
    res = run_pool(jobs, seed, None)

    # ---------------- concrete jobs: counterexamples, errors, path witnesses
    cjobs = []
    meta = []
    ndeg = 0

    def addc(i, kind, label, inputs):
        h, p, _ = jobs[i]
        cjobs.append(
            dict(prop=prop, harness=h.name, params=p, inputs=inputs, seed=seed + len(cjobs), timeout=h.opts.get("ctimeout", 60))
        )
        meta.append((i, kind, label))

    degraded = []
    for i, r in enumerate(res):
        h, p, _ = jobs[i]
        bad = False
        for v in r.get("violations", []):
            addc(i, "cex", v["label"], v["inputs"])
        for e in r.get("errors", []):
            addc(i, "err", e["error"], e["inputs"])
            bad = True
        for e in r.get("inconclusive", []):
            addc(i, "inc", e["label"], e["inputs"])
        if r.get("crash"):
            bad = True
        nw = h.opts.get("witnesses", 2 if tier == "quick" else 6)
        ms = r.get("models", [])
        step = max(1, len(ms) // nw) if nw else 1
        for m in ms[::step][:nw]:
            addc(i, "wit", "path witness", m)
        if bad or not ms:
            degraded.append(i)
            for _ in range(h.opts.get("degraded", 8)):
                addc(i, "deg", "degraded run", {})
    cres = run_concrete(cjobs)

    known = load_known()
    found = []
    knownhits = {}
    limits = []
    unrepro = []
    nwit = 0
    for (i, kind, label), job, r in zip(meta, cjobs, cres):
        h, p, _ = jobs[i]
        st = r["status"]
        if st == "timeout" and not h.opts.get("hang_is_violation"):
            st = "limit"
        if st in ("fail", "timeout"):
            lab = r.get("label", "no result (hang)")
            k = is_known(known, prop, h.name, p, lab)
            if k:
                knownhits[json.dumps(k, sort_keys=True)] = k
                # other failing labels on the same run that are not listed
                others = [x for x in r.get("all", []) if not is_known(known, prop, h.name, p, x)]
                if not others:
                    continue
                lab = others[0]
            found.append((i, kind, lab, job, r))
        elif st == "ok":
            if kind == "wit":
                nwit += 1
            if kind == "cex":
                unrepro.append("%s %s: %s (does not reproduce on the real code)" % (h.name, p, label))
        elif st == "limit":
            limits.append("%s %s: %s" % (h.name, p, r.get("error")))

    # ---------------- evidence
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res)
    funcs = sorted({f for r in res for f in r.get("functions", [])})
    inst = []
    for (h, p, lim), r in zip(jobs, res):
        inst.append(
            dict(
                harness=h.name,
                params=p,
                bounds=h.bounds,
                paths=r.get("paths"),
                assertions=r.get("obligations"),
                queries=(r.get("queries") or 0) + (r.get("feas_queries") or 0),
                exhaustive=r.get("exhaustive"),
                largest_polynomial=r.get("max_terms"),
                wall_s=round(r.get("wall", 0) or 0, 2),
                inconclusive=[x["label"] for x in r.get("inconclusive", [])][:5],
                errors=[x["error"] for x in r.get("errors", [])][:3],
                crash=r.get("crash"),
            )
        )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="other",
        coverage=dict(
            explanation="bounded symbolic execution of the working tree's own functions; each assertion on each path is an SMT query (z3) "
            "over all values of the symbolic inputs inside the stated boxes; counterexamples are replayed on the unmodified package. "
            + (getattr(mod, "BOUNDS", "") or ""),
            functions_encoded=funcs,
            functions_encoded_count=len(funcs),
            harness_instances=len(jobs),
            paths=tot("paths"),
            assertions=tot("obligations"),
            assertion_queries=tot("queries"),
            assertion_queries_unsat=tot("unsat"),
            feasibility_queries=tot("feas_queries"),
            feasibility_unknown_treated_as_feasible=tot("unknown_feas"),
            solver_s=round(tot("solver_s"), 3),
            paths_not_explored=tot("cut"),
            path_witnesses_validated_on_real_code=nwit,
            reachability="every instance lists the assertions reached; an instance with 0 would be reported as degraded",
            degraded_instances=["%s %s" % (jobs[i][0].name, jobs[i][1]) for i in degraded],
            harness_limits=limits[:20],
            unreproduced=unrepro[:20],
            instances=inst,
            samples=[dict(harness=j["harness"], params=j["params"], inputs=dict(list(j["inputs"].items())[:12])) for j in cjobs[:3]],
        ),
        assumptions=["floating point is modelled by exact reals; equality means agreement to the stated tolerance (1e-8 relative to the box scale unless stated)"]
        + list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(found),
    )
    if pre_err:
        ev["coverage"]["preload_error"] = pre_err
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    if verbose:
        for x in inst:
            print(x["harness"], x["params"], "paths", x["paths"], "ass", x["assertions"], "q", x["queries"], "exh", x["exhaustive"], "terms", x["largest_polynomial"], "wall", x["wall_s"], "INC" if x["inconclusive"] else "", x["inconclusive"][:2], x["errors"][:2], x["crash"] or "")
        for r in res:
            for e in r.get("errors", [])[:1]:
                print(e["tb"])
        print("solver_s", ev["coverage"]["solver_s"], "wall", ev["wall_s"], "witnesses", nwit)
        for l in limits[:10]:
            print("LIMIT", l)
        for l in unrepro[:10]:
            print("UNREPRO", l)
    for k in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not found:
        print("OK property=%s instances=%d paths=%d assertions=%d queries=%d solver_s=%.1f wall_s=%.1f%s" % (
            prop, len(jobs), tot("paths"), tot("obligations"), tot("queries") + tot("feas_queries"), tot("solver_s"), time.time() - t0,
            (" degraded=%d" % len(degraded)) if degraded else ""))
        sys.exit(0)
    rd = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)
    seen = set()
    for n, (i, kind, lab, job, r) in enumerate(found):
        key = (job["harness"], lab)
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rd, "%s-%d.json" % (prop, len(seen)))
        j = dict(job)
        if r.get("values"):
            j["inputs"] = r["values"]
        json.dump(dict(property=prop, label=lab, observed=r.get("error"), traceback=r.get("tb"), source=kind, job=j,
                       how="python3-vt /verif/check.py %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
        print("%s: %s: %s %s" % (job["harness"], json.dumps(job["params"]), lab, (r.get("error") or "")[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        if len(seen) >= 5:
            break
    sys.exit(1)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
