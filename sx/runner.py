"""check runner:  python3-vt -m sx.runner P01 --tier quick"""
import argparse
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = "/opt/venv/bin/python"
EVIDENCE = os.path.join(ROOT, "evidence")

TIERS = {
    "quick": dict(budget=400.0, path_timeout=60.0, query_ms=15000, replays=150, slice=1.0),
    "thorough": dict(budget=840.0, path_timeout=120.0, query_ms=30000, replays=400, slice=3.0),
}


class Server:
    """concrete execution of the harness on the real code"""

    def __init__(self, harness):
        self.harness = harness
        self.p = None

    def request(self, req, timeout=60):
        if self.p is None:
            env = dict(os.environ, TZ="UTC", PYTHONPATH="", PYTHONHASHSEED="0")
            self.p = subprocess.Popen(
                [VENV_PY, os.path.join(ROOT, "sx", "replay.py"), "--serve", self.harness],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
            )
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            import select

            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.close()
                return {"error": "timeout", "checks": [], "obs": [], "exc": None}
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as e:
            self.close()
            return {"error": f"server died: {e}", "checks": [], "obs": [], "exc": None}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


def failed_labels(res):
    out = [l for l, ok in res.get("checks", []) if not ok]
    if res.get("exc"):
        out.append("exception:" + res["exc"][0])
    return out


def safe_str(e):
    try:
        return str(e)
    except Exception:  # messages may contain symbolic text
        return "?"


def run_path(c, prefix, tier, known, cfg, snap):
    """execute one path; -> (Path, outcome)"""
    from sx import core, symapi

    p = core.Path(prefix, cfg["query_ms"])
    p.deadline = time.monotonic() + cfg["path_timeout"]
    core.set_cur(p)
    api = symapi.Symbolic(p, tier, known)
    api.unit = c.fn.__globals__.get("UNIT", 10**6)
    outcome = {"kind": "done"}
    try:
        try:
            c.fn(api, **c.args)
        except core.SxAbort:
            raise
        except RecursionError:
            raise core.Unsupported("recursion limit")
        except Exception as e:
            p.reached += 1
            p.flush()
            m = p.get_model()
            tb = traceback.extract_tb(e.__traceback__)
            p.failed.append((f"exception:{type(e).__name__}", api.inputs(m)))
            outcome["exc"] = [f"{type(e).__name__}: {safe_str(e)}"[:300], [f"{f.filename}:{f.lineno}" for f in tb[-6:]]]
        if cfg.get("want_inputs", True):
            p.flush()
            p.model = None
            m = p.get_model()
            outcome["inputs"] = api.inputs(m)
            outcome["obs"] = [[l, f(m)] for l, f in p.observations]
    except core.Infeasible:
        outcome = {"kind": "infeasible"}
    except core.Unsupported as e:
        outcome = {"kind": "unsupported", "why": str(e)}
        p.incomplete.append(f"unsupported: {e}")
    except core.PathTimeout:
        outcome = {"kind": "timeout"}
        p.incomplete.append("path timeout")
    except core.Violated:
        outcome = {"kind": "violated"}
    finally:
        core.set_cur(None)
        snap.restore()
    if len(p.trace) < len(p.prefix) and outcome["kind"] == "done":
        outcome = {"kind": "unsupported", "why": "nondeterministic re-execution"}
        p.incomplete.append("nondeterministic re-execution")
    if outcome["kind"] in ("unsupported", "timeout") and not p.failed:
        # the encoding stops here: the path stays undecided, but inputs that lead here are replayed on the real code
        core.set_cur(p)
        p.deadline = time.monotonic() + 10
        try:
            p.flush()
            p.model = None
            outcome["inputs"] = api.inputs(p.get_model())
            outcome["more"] = corners(p, api, time.monotonic() + cfg.get("corner_s", 3.0), 40)
        except BaseException:
            pass
        finally:
            core.set_cur(None)
    return p, outcome


def corners(p, api, deadline, n):
    """further models of an undecided path: inputs at the ends of their ranges and next to each other"""
    import random

    import z3

    from sx import dt

    nums, conds = [], []
    for name, spec in p.inputs.items():
        if spec[0] == "int" and not isinstance(spec[1], int):
            nums.append((spec[1], "i"))
        elif spec[0] == "pair":
            nums.append((spec[1] * dt.DAY + spec[2], "t"))
            if not z3.is_int_value(spec[2]):
                conds += [spec[2] == 0, spec[2] > dt.DAY - dt.SEC, spec[2] % dt.SEC != 0]
                nums.append((spec[2], "i"))
            nums.append((spec[1], "i"))
        elif spec[0] == "bool":
            conds += [spec[1], z3.Not(spec[1])]
        elif spec[0] == "cells":
            for c in spec[1][:1] + spec[1][-1:]:
                if not isinstance(c.var, int):
                    conds += [c.var == ord(x) for x in ' ,;:"\\\n0-'] + [c.var > 0x7F]
    for e, k in nums:
        b = p.bounds(e)
        if k == "i":
            conds += [e == x for x in (0, 1, -1)]
        if b is not None:
            conds += [e == b[0], e == b[1]]
    for i, (a, k) in enumerate(nums):
        for b, l in nums[:i]:
            if k == l:
                conds += [a == b, a < b, a > b, a == b + 1, a == b - 1]
    r = random.Random(0)
    r.shuffle(conds)
    out, seen = [], set()
    p.solver.set("timeout", 500)
    for i in range(3 * n):
        if len(out) >= n or time.monotonic() > deadline or not conds:
            break
        # first every condition, then two at a time
        cs = conds[i : i + 1] if i < min(len(conds), 2 * n) else r.sample(conds, min(2, len(conds)))
        if p.solver.check(*cs) == z3.sat:
            x = api.inputs(p.solver.model())
            key = json.dumps(x)
            if key not in seen:
                seen.add(key)
                out.append(x)
    return out


def worker(idx, tasks, results, harness, tier, known, cfg):
    sys.setrecursionlimit(12000)
    from sx import api, core, instrument, rt

    # run in a thread-free child: the parent has already loaded the instrumented modules
    snap = instrument.Snapshot()
    cases = list(api.CASES)
    server = Server(harness)
    replays = {}
    while True:
        t = tasks.get()
        if t is None:
            break
        ci, stack, slice_s = t
        c = cases[ci]
        st0 = core.STATS.as_dict()
        out = dict(ci=ci, paths=0, infeasible=0, incomplete={}, checks={}, vio=[], diverge=[], replays=0, reached=0,
                   leftover=[], nerr=[], unconf=[], validated=0, samples=[])
        end = time.monotonic() + slice_s
        try:
            while stack:
                prefix = stack.pop()
                p, o = run_path(c, prefix, tier, known, cfg, snap)
                stack.extend(p.alts)
                if o["kind"] == "infeasible":
                    out["infeasible"] += 1
                else:
                    out["paths"] += 1
                    out["reached"] += p.reached
                    if p.incomplete:
                        key = "; ".join(sorted(set(p.incomplete)))[:200]
                        out["incomplete"][key] = out["incomplete"].get(key, 0) + 1
                    for l, ok in p.checks:
                        out["checks"][l] = out["checks"].get(l, 0) + 1
                    # candidate violations: replay against the real code
                    for label, inputs in p.failed:
                        res = server.request(dict(case=c.name, inputs=inputs, tier=tier, known=known))
                        out["replays"] += 1
                        bad = failed_labels(res)
                        if bad:
                            out["vio"].append(dict(label=label, inputs=inputs, concrete=bad, exc=res.get("exc"), sym=o.get("exc")))
                        else:
                            out["unconf"].append(dict(label=label, inputs=inputs, sym=o.get("exc"), conc=res))
                    n = replays.get(ci, 0)
                    if "inputs" in o and not p.failed and n < cfg["replays"]:
                        replays[ci] = n + 1
                        for inputs in [o["inputs"]] + o.get("more", []):
                            res = server.request(dict(case=c.name, inputs=inputs, tier=tier, known=known))
                            out["replays"] += 1
                            bad = failed_labels(res)
                            if bad:
                                break
                        if bad:
                            out["vio"].append(dict(label="replay", inputs=inputs, concrete=bad, exc=res.get("exc")))
                        elif "obs" not in o:
                            pass
                        elif res.get("error") or res.get("skipped") or res.get("obs") != o["obs"]:
                            out["diverge"].append(dict(inputs=o["inputs"], sym=o["obs"], conc=res))
                        else:
                            out["validated"] += 1
                            if len(out["samples"]) < 2:
                                out["samples"].append(dict(case=c.name, inputs=o["inputs"], obs=o["obs"]))
                if out["vio"] or time.monotonic() > end:
                    break
        except BaseException:
            out["nerr"].append(traceback.format_exc()[-1500:])
        out["leftover"] = stack
        st1 = core.STATS.as_dict()
        out["stats"] = {k: st1[k] - st0[k] for k in st1}
        out["encoded"] = sorted(rt.ENCODED)
        results.put((idx, out))
    server.close()


def load_known():
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def confirm_fresh(pid, harness, case, inputs, tier, known, n, label, concrete):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, harness=os.path.basename(harness), case=case, inputs=inputs, tier=tier, known=known,
                       label=label, fails=concrete), f, indent=1)
    env = dict(os.environ, TZ="UTC", PYTHONPATH="")
    r = subprocess.run([VENV_PY, os.path.join(ROOT, "sx", "replay.py"), path], capture_output=True, text=True, env=env,
                       timeout=120)
    try:
        res = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return path, False, None
    return path, bool(failed_labels(res)), res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=list(TIERS))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--case", default=None, help="only cases whose name contains this")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    pid, tier = a.pid, a.tier
    cfg = dict(TIERS[tier])
    if a.budget:
        cfg["budget"] = a.budget
    harness = os.path.join(ROOT, "harness", f"{pid.lower()}.py")
    os.makedirs(EVIDENCE, exist_ok=True)
    for f in os.listdir(os.path.join(EVIDENCE, "replays")) if os.path.isdir(os.path.join(EVIDENCE, "replays")) else ():
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(EVIDENCE, "replays", f))

    os.environ["TZ"] = "UTC"
    time.tzset()
    from sx import api, instrument

    instrument.install()
    mod = instrument.load_harness(harness)
    api.CASES[:] = [c for c in api.CASES if tier in c.tiers and (a.case is None or a.case in c.name)]
    cases = list(api.CASES)
    findings = [f for f in load_known() if f.get("property") == pid]
    known = [f["id"] for f in findings]

    # known findings: replayed on the real code
    srv = Server(harness)
    for f in findings:
        res = srv.request(dict(case=f["case"], inputs=f["inputs"], tier=tier, known=[]))
        if failed_labels(res):
            print(f"KNOWN-FINDING: property={pid} {f['what']}", flush=True)
        else:
            print(f"note: known finding {f['id']} no longer reproduces", flush=True)
    srv.close()

    ctx = mp.get_context("fork")
    tasks, results = ctx.SimpleQueue(), ctx.Queue()
    procs = [
        ctx.Process(target=worker, args=(i, tasks, results, harness, tier, known, cfg), daemon=True) for i in range(a.jobs)
    ]
    for p in procs:
        p.start()

    agg = {c.name: dict(paths=0, infeasible=0, incomplete={}, checks={}, replays=0, reached=0, left=0, diverge=[], unconf=[],
                        validated=0, samples=[]) for c in cases}
    stats = {}
    encoded = set()
    vios = []
    errors = []
    pending = {i: [[]] for i in range(len(cases))}
    inflight = 0
    outstanding = {i: 0 for i in range(len(cases))}
    rr = 0
    deadline = t0 + cfg["budget"]

    def dispatch():
        nonlocal inflight, rr
        while inflight < a.jobs + 2 and time.monotonic() < deadline:
            live = [i for i in pending if pending[i]]
            if not live:
                return
            rr += 1
            i = live[rr % len(live)]
            st = pending[i]
            # split the frontier over the workers
            n = 1 if len(st) < 2 else max(1, min(len(st) // 2, 200 if len(live) >= a.jobs else len(st) // a.jobs or 1))
            batch, pending[i] = st[:n], st[n:]
            few = sum(len(x) for x in pending.values()) < a.jobs * 2
            tasks.put((i, batch, cfg["slice"] * (0.25 if few else 1.0)))
            outstanding[i] += 1
            inflight += 1

    done_early = False
    seen_vio = set()
    last = t0
    while True:
        if not done_early:
            dispatch()
        if inflight == 0:
            break
        try:
            idx, o = results.get(timeout=cfg["path_timeout"] + 5 * cfg["query_ms"] / 1000 + 60)
        except queue.Empty:
            errors.append("a worker did not answer")
            break
        inflight -= 1
        outstanding[o["ci"]] -= 1
        c = cases[o["ci"]]
        g = agg[c.name]
        for k in ("paths", "infeasible", "replays", "reached", "validated"):
            g[k] += o[k]
        for k in ("incomplete", "checks"):
            for n, v in o[k].items():
                g[k][n] = g[k].get(n, 0) + v
        g["diverge"] += o["diverge"][:3]
        g["unconf"] += o["unconf"][:3]
        g["samples"] = (g["samples"] + o["samples"])[:2]
        errors += o["nerr"]
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        encoded.update(o["encoded"])
        pending[o["ci"]].extend(o["leftover"])
        for v in o["vio"]:
            v["case"] = c.name
            key = (c.name, tuple(v["concrete"]))
            if key in seen_vio:
                continue
            seen_vio.add(key)
            path, ok, res = confirm_fresh(pid, harness, c.name, v["inputs"], tier, known, len(vios), v["label"], v["concrete"])
            v["confirmed"], v["replay"] = ok, path
            vios.append(v)
            if ok:
                print(f"VIOLATION property={pid} replay={path}", flush=True)
                print(f"  case {c.name}: {', '.join(v['concrete'])}  inputs {json.dumps(v['inputs'])[:400]}", flush=True)
                if v.get("exc"):
                    print(f"  {v['exc']}", flush=True)
                if not a.keep_going:
                    done_early = True
        if a.verbose and time.monotonic() - last > 5:
            last = time.monotonic()
            print(f"[{last - t0:.0f}s] pending", {cases[i].name: len(s) for i, s in pending.items() if s},
                  "paths", sum(x["paths"] for x in agg.values()), file=sys.stderr)
    for p in procs:
        p.terminate()
    for i, s in pending.items():
        agg[cases[i].name]["left"] = len(s)

    confirmed = [v for v in vios if v.get("confirmed")]
    wall = time.monotonic() - t0
    ncomplete = sum(1 for g in agg.values() if not g["left"] and not g["incomplete"] and g["reached"])
    vac = [n for n, g in agg.items() if not g["reached"]]
    total_paths = sum(g["paths"] for g in agg.values())
    cov = dict(
        technique="path-exhaustive symbolic execution of the real Python source with z3",
        functions_encoded=sorted(encoded),
        bounds=getattr(mod, "BOUNDS", ""),
        outside_bounds=getattr(mod, "OUTSIDE", ""),
        states=total_paths,
        transitions=stats.get("decisions", 0),
        traces_validated_against_impl=sum(g["validated"] for g in agg.values()),
        samples=[x for g in agg.values() for x in g["samples"][:1]][:12],
        counts_note="states: completed symbolic paths, each standing for every input that satisfies its path condition; transitions: "
        "branch decisions taken symbolically; traces_validated_against_impl: paths whose solver model was run on the real, "
        "uninstrumented code with the same observations and every assertion true",
        cases=len(cases),
        cases_decided_completely=ncomplete,
        cases_vacuous=vac,
        paths=total_paths,
        infeasible_paths=sum(g["infeasible"] for g in agg.values()),
        assertions_discharged=sum(sum(g["checks"].values()) for g in agg.values()),
        queries=stats.get("queries", 0),
        solver_s=round(stats.get("solver_s", 0), 2),
        solver_unknown=stats.get("unknown", 0),
        forks=stats.get("forks", 0),
        replays_on_real_code=sum(g["replays"] for g in agg.values()),
        engine_divergences=sum(len(g["diverge"]) for g in agg.values()),
        unconfirmed_candidates=sum(len(g["unconf"]) for g in agg.values()),
        unexplored_prefixes=sum(g["left"] for g in agg.values()),
        per_case={
            n: dict(paths=g["paths"], checks=g["checks"], incomplete=g["incomplete"], unexplored=g["left"],
                    replays=g["replays"], divergences=g["diverge"][:2], unconfirmed=g["unconf"][:2])
            for n, g in agg.items()
        },
    )
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")),
        level=getattr(mod, "LEVEL", "model_checking"), coverage=cov, wall_s=round(wall, 2),
        violations=len(confirmed),
        violation_list=[dict(case=v["case"], fails=v["concrete"], inputs=v["inputs"], replay=v["replay"]) for v in confirmed],
        assumptions=[
            "the models of datetime, str, re, base64, struct-like builtins in /verif/sx agree with CPython (every explored path is replayed)",
            "z3 is sound", "outside the bounds: " + getattr(mod, "OUTSIDE", ""),
        ],
        known_findings=known, engine_errors=errors[:5],
    )
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {len(cases)} cases ({ncomplete} decided completely), {total_paths} paths, "
        f"{cov['assertions_discharged']} assertions, {cov['queries']} queries, solver {cov['solver_s']}s, "
        f"{cov['replays_on_real_code']} replays, {cov['engine_divergences']} divergences, "
        f"{cov['unconfirmed_candidates']} unconfirmed, {cov['unexplored_prefixes']} unexplored, wall {wall:.1f}s"
    )
    for n, g in agg.items():
        if a.verbose or g["incomplete"] or g["diverge"] or g["unconf"] or g["left"] or not g["reached"]:
            print(f"  {n}: paths {g['paths']} left {g['left']} checks {sum(g['checks'].values())} incomplete {g['incomplete']}"
                  + (f" DIVERGE {json.dumps(g['diverge'][:1])[:600]}" if g["diverge"] else "")
                  + (f" UNCONFIRMED {json.dumps(g['unconf'][:1])[:800]}" if g["unconf"] else ""))
    for e in errors[:3]:
        print("  engine error:", e)
    sys.stdout.flush()
    os._exit(1 if confirmed else 0)


if __name__ == "__main__":
    main()
