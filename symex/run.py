"""Check one property: explore every job of props/<id>.py in parallel."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time
import traceback

from symex.boot import REPO, VERIF, boot

PY = sys.executable


def profile_factory(seen):
    pre = os.path.join(os.path.abspath(REPO), "eckity") + os.sep

    def prof(frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(pre):
                seen.add(c.co_filename[len(pre):-3].replace("/", ".") + "." +
                         c.co_qualname)
    return prof


def replay_env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    return e


def replay_in_subprocess(path):
    try:
        p = subprocess.run([PY, "-m", "symex.replay", path], cwd=VERIF,
                           env=replay_env(), capture_output=True, text=True,
                           timeout=120)
    except subprocess.TimeoutExpired:
        return 3, "the replay does not terminate (120 s)"
    if p.returncode not in (0, 3, 4):
        raise RuntimeError("replay broke down: " + p.stderr[-1500:])
    return p.returncode, p.stdout[-2000:] + p.stderr[-500:]


def known_findings():
    """property -> list of (key, text); `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> harness=<h> label=<l> :: text
                head, text = line[len("finding:"):].split("::", 1)
                kv = dict(x.split("=", 1) for x in head.split())
                out.setdefault(kv["property"], []).append(
                    (kv["harness"], kv["label"].replace("_", " "),
                     text.strip()))
    return out


def job_main(prop, job, tier, keep, conn):
    try:
        from symex import core, stubs
        hname, cfg, opts = job
        mod = importlib.import_module("props." + prop.lower())
        fn = getattr(mod, hname)
        seen = set()
        stats = {"replays": 0, "confirmed": 0}
        tried = {}
        kf = known_findings().get(prop, [])

        def on_candidate(label, models):
            for i, a in enumerate(models):
                data = {"property": prop, "module": "props." + prop.lower(),
                        "harness": hname, "cfg": repr(cfg), "label": label,
                        "assignment": a}
                h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()
                                 ).hexdigest()[:10]
                d = os.path.join(VERIF, "replays")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, f"{prop}-{hname}-{h}.json")
                with open(path, "w") as f:
                    json.dump(data, f, indent=1)
                for kh, kl, text in kf:
                    if kh == hname and kl in label:
                        os.unlink(path)
                        return "known", text
                code, msg = replay_in_subprocess(path)
                stats["replays"] += 1
                if code == 3:
                    stats["confirmed"] += 1
                    data["observed"] = msg
                    with open(path, "w") as f:
                        json.dump(data, f, indent=1)
                    return "violation", path
                if not os.environ.get("VERIF_KEEP"):
                    os.unlink(path)
                else:
                    print("NOT REPRODUCED", code, msg[-600:], path)
                if tried.setdefault(label, 0) > 6:
                    break
                tried[label] += 1
            return "unreproduced", None

        res = core.explore(
            fn, cfg, stubs.Env(), budget_s=opts.get("budget", 240),
            profile=profile_factory(seen), on_candidate=on_candidate,
            keep=keep, max_paths=opts.get("max_paths"),
            solver_timeout_ms=opts.get("solver_ms", 8000))
        # validate the encoding: run solver-chosen inputs on native values
        res["validated"] = 0
        if not res["violations"] and not opts.get("no_validate"):
            from symex import replay
            for a in validation_models(core, stubs, fn, cfg):
                data = {"property": prop, "module": "props." + prop.lower(),
                        "harness": hname, "cfg": repr(cfg),
                        "label": "native run of a solver-chosen input",
                        "assignment": a}
                code, msg = replay.run(data)
                if code == 3:
                    v = on_candidate(data["label"] + ": " + msg[:80], [a])
                    if v[0] == "violation":
                        res["violations"].append(
                            {"label": msg[:200], "replay": v[1]})
                        break
                    elif v[0] == "known":
                        continue
                    res["incomplete"]["native run disagrees"] = 1
                elif code == 0:
                    res["validated"] += 1
        res["functions"] = sorted(seen)
        res["replays"] = stats["replays"]
        res["job"] = (hname, repr(cfg))
        conn.send(dict(res))
    except BaseException:
        conn.send({"error": traceback.format_exc(), "job": repr(job)})
    finally:
        conn.close()


def validation_models(core, stubs, fn, cfg, n=3):
    """Integer-valued models of the first few paths."""
    import z3
    out = []
    ctx = core.SymCtx(2000, deadline=time.time() + 10)
    more, k = True, 0
    while more and k < n:
        k += 1
        ctx.reset_path()
        core.set_cur(ctx)
        stubs.Env().reset(ctx)
        try:
            try:
                fn(ctx, **cfg)
            except core._Fail:
                pass
            except Exception:
                pass
            finally:
                core.set_cur(None)
            ms = ctx._models(None)
            if len(ms) == 3:
                out.append(ms[0])
        except (core.PathAbort, core.Divergence):
            k -= 1
        except core.Budget:
            break
        more = ctx.backtrack()
    core.set_cur(None)
    return out


def run_jobs(prop, jobs, tier, deadline, keep, workers):
    """Yield results; stop early at the first confirmed violation."""
    ctx = mp.get_context("fork")
    # heavy jobs first
    todo = sorted(jobs, key=lambda j: -j[2].get("weight", 1))
    running = []
    results = []
    violation = None
    while todo or running:
        while todo and len(running) < workers and violation is None:
            job = todo.pop(0)
            left = deadline - time.time()
            if left < 1:
                results.append({"skipped": True, "job": (job[0],
                                                         repr(job[1]))})
                continue
            opts = dict(job[2])
            opts["budget"] = min(opts.get("budget", 240), left)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=job_main,
                            args=(prop, (job[0], job[1], opts), tier, keep,
                                  w))
            p.start()
            w.close()
            running.append((p, r, job, time.time() + opts["budget"] + 90))
        if violation is not None:
            for p, r, job, _ in running:
                p.kill()
            for p, r, job, _ in running:
                p.join()
            break
        mp.connection.wait([r for _, r, _, _ in running], timeout=0.5)
        still = []
        for p, r, job, limit in running:
            done = False
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    res = {"error": "job died", "job": repr(job)}
                p.join()
                done = True
            elif not p.is_alive():
                p.join()
                res = {"error": f"job died (exit {p.exitcode})",
                       "job": repr(job)}
                done = True
            elif time.time() > limit:
                p.kill()
                p.join()
                res = {"error": "job exceeded its time limit",
                       "job": repr(job), "timeout": True}
                done = True
            if done:
                results.append(res)
                if res.get("violations"):
                    violation = res["violations"][0]
            else:
                still.append((p, r, job, limit))
        running = still
    return results, violation


def cross_check(results, limit_s=60):
    """Re-decide kept queries with cvc5."""
    n = agree = other = 0
    t0 = time.time()
    for r in results:
        for smt, verdict in r.get("kept", []) or []:
            if time.time() - t0 > limit_s or verdict is None:
                continue
            try:
                p = subprocess.run(
                    ["cvc5", "--lang=smt2", "--tlimit=5000", "-"],
                    input="(set-logic ALL)\n" + smt, capture_output=True,
                    text=True, timeout=20)
            except Exception:
                continue
            out = p.stdout.strip().split("\n")[0]
            n += 1
            if "(error" in p.stdout or out not in ("sat", "unsat"):
                other += 1
            elif out == verdict:
                agree += 1
            else:
                return n, agree, other, f"cvc5 says {out}, z3 {verdict}"
    return n, agree, other, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    failed = boot(symbolic=True)
    mod = importlib.import_module("props." + prop.lower())
    jobs = [(j + ({},))[:3] for j in mod.jobs(tier)]
    if a.only:
        jobs = [j for j in jobs if a.only in j[0] + repr(j[1])]
    total = getattr(mod, "BUDGET", {}).get(
        tier, 420 if tier == "quick" else 3000)
    keep = 3 if tier == "thorough" else 0
    results, violation = run_jobs(prop, jobs, tier, t0 + total, keep,
                                  int(os.environ.get("VERIF_WORKERS", 0)) or
                                  os.cpu_count() or 8)
    agg = lambda k: sum(r.get(k, 0) or 0 for r in results)
    errors = [r for r in results if "error" in r]
    skipped = [r for r in results if r.get("skipped")]
    incomplete = {}
    for r in results:
        for k, v in (r.get("incomplete") or {}).items():
            incomplete[k] = incomplete.get(k, 0) + v
    if any(r.get("timed_out") for r in results):
        incomplete["time budget"] = sum(
            1 for r in results if r.get("timed_out"))
    vacuous = [r["job"] for r in results if "reached" in r and
               not r["reached"] and not r.get("violations")]
    known = {}
    for r in results:
        for k, v in (r.get("known") or {}).items():
            known[k] = known.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    cc = cross_check(results) if keep else None
    exhaustive = not (errors or skipped or incomplete or vacuous or violation)
    cov = {
        "states": agg("reached"),
        "transitions": sum((r.get("queries") or 0) for r in results),
        "traces_validated_against_impl": agg("validated") + agg("replays"),
        "samples": [r["sample"] for r in results if r.get("sample")][:4] or
                   ["none"],
        "exhaustive": exhaustive,
        "explanation": "states = symbolic paths whose end was reached with a "
        "satisfiable path condition; transitions = solver queries "
        "(branch feasibility and negated assertions); traces = solver models "
        "run natively on /repo's code",
        "technique": "path-exhaustive symbolic execution of the real eckity "
        "code, every assertion decided by z3 over all values within bounds",
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "functions_encoded": funcs,
        "jobs": len(jobs),
        "paths": agg("paths"),
        "infeasible_paths": agg("aborted"),
        "assertions_decided_by_solver": agg("obligations"),
        "assertions_decided_by_simplifier": agg("simplified"),
        "assertions_constant_on_path": agg("concrete_ok"),
        "queries": agg("queries"),
        "unknown_answers": agg("unknowns"),
        "solver_s": round(agg("solver_s"), 3),
        "incomplete": incomplete,
        "vacuous_jobs": vacuous,
        "job_errors": [e["error"][-600:] for e in errors][:5],
        "skipped_jobs": len(skipped),
        "per_job": [{"job": r["job"], "paths": r["paths"],
                     "queries": r["queries"],
                     "wall_s": round(r["wall_s"], 2)}
                    for r in results if "paths" in r],
    }
    if cc is not None:
        cov["cvc5_cross_check"] = {"queries": cc[0], "agree": cc[1],
                                   "undecided": cc[2], "conflict": cc[3]}
        if cc[3]:
            cov["exhaustive"] = exhaustive = False
            incomplete["solver disagreement"] = 1
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough")
          else "quick", "seed": seed, "level": "model_checking",
          "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON,
          "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: jobs={len(jobs)} paths={cov['paths']} "
          f"reached={cov['states']} queries={cov['queries']} "
          f"solver={cov['solver_s']}s assertions={agg('obligations')}"
          f"+{agg('simplified')}+{agg('concrete_ok')} wall={ev['wall_s']}s "
          f"exhaustive={exhaustive}")
    if a.v:
        for r in sorted(results, key=lambda r: -r.get("wall_s", 0)):
            print("  ", r.get("job"), r.get("paths"),
                  round(r.get("wall_s", 0), 1), r.get("incomplete"),
                  "TIMEOUT" if r.get("timed_out") else "",
                  r.get("last_exc", ""))
    for e in errors:
        print("INCOMPLETE job error:", e["error"][-1500:])
    for k, v in incomplete.items():
        print(f"INCOMPLETE {k}: {v}")
    for j in vacuous:
        print("INCOMPLETE vacuous job:", j)
    if failed:
        print("note: modules that do not import:", failed)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if violation:
        print("counterexample:", violation["label"])
        print(f"VIOLATION property={prop} replay={violation['replay']}")
        return 1
    return 0


COMMON = [
    "Python floats are modelled as mathematical reals unless the harness "
    "says IEEE double; ints are unbounded",
    "random / numpy.random / concurrent.futures are replaced by stubs that "
    "return any value their documentation allows",
    "z3 5.x is sound; CPython and the proxy classes execute faithfully "
    "(spot-checked by native runs of solver models)",
]

if __name__ == "__main__":
    sys.exit(main())
