"""Command line of the simulation: check, replay, determinism.

    python -m sim check C01 [--tier quick] [--seed 1]
    python -m sim replay FILE
    python -m sim determinism [C01 ...] --runs 40
"""

import argparse
import gc
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import threading
import time
import traceback

T_REAL = time.time  # before the seams go in

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
N_LANES = 8
LIMITS = {"quick": (330.0, 600.0), "thorough": (3000.0, 3600.0)}  # soft, hard (s)


def child_env(lane):
    env = dict(os.environ)
    env.update(
        HOME=env.get("HOME", "/root"),
        PYTHONHASHSEED=str(lane),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        PYTHONPATH=VERIF,
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TQDM_DISABLE="1",
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    for k in ("JAX_ENABLE_X64", "PYTEST_ADDOPTS", "PYTHONSTARTUP"):
        env.pop(k, None)
    if "MPLCONFIGDIR" not in env:
        env["MPLCONFIGDIR"] = "/tmp/verif-mpl"
    return env


# ------------------------------------------------------------------ in a worker


def load(prop):
    """Install the seams, import wax from /repo, then the property module."""
    sys.path.insert(0, VERIF)
    import warnings

    warnings.simplefilter("ignore")
    from sim import seams

    seams.install()
    import wax

    assert wax.__file__.startswith("/repo/src/"), wax.__file__
    for name in sorted(os.listdir(os.path.join(VERIF, "sim", "props"))):
        if name.startswith(prop.lower() + "_") and name.endswith(".py"):
            return importlib.import_module("sim.props." + name[:-3])
    raise SystemExit(f"no property module for {prop}")


class Worker:
    def __init__(self, prop, seed, tier):
        self.mod = load(prop)
        self.prop, self.seed, self.tier = prop, seed, tier
        from sim import core, seams

        self.core, self.seams = core, seams
        self.hang_s = getattr(self.mod, "HANG_S", 90)
        self._n = 0
        # every run in a process of its own, forked before JAX has started
        self.fresh = bool(getattr(self.mod, "FRESH_RUNS", False))
        if self.fresh:
            self.mod.preload()
        signal.signal(signal.SIGALRM, self._alarm)

    def _alarm(self, *a):
        raise self.core.SimHang

    def generate(self, idx):
        rng = self.core.rng_for(self.seed, self.prop, idx)
        sc = self.mod.gen(rng, idx, self.tier)
        return self.core.jcopy(sc)

    def execute(self, scenario, keep_log=False):
        """-> dict(violations, harness_error, digest, ...). A pure function of the
        scenario, the code under test and the hash seed of this interpreter."""
        if self.fresh:
            from sim import fresh

            def go():
                self.fresh = False
                return self.execute(scenario, keep_log)

            r = fresh.call(go, 2 * self.hang_s + 30)
            if isinstance(r, fresh.Died):
                r = {"violations": [], "harness_error": f"the process of the run died: {r}", "digest": "", "n_log": 0, "faults": {}, "probes": {}, "sim_time": 0.0,
                     "states": [], "nontrivial": False, "scenario_out": None, "log": []}
            return r
        core = self.core
        ctx = core.Ctx(self.prop)
        ctx.keep_log = keep_log
        err = None
        if self._n % 25 == 0:
            gc.collect()
        if self._n % 200 == 199:
            import jax

            jax.clear_caches()
        self._n += 1
        gc.disable()
        signal.setitimer(signal.ITIMER_REAL, self.hang_s)
        try:
            self.mod.run(self.core.jcopy(scenario), ctx)
        except core.StopRun:
            pass
        except core.SimHang:
            ctx.violate("no-progress", f"no end after {self.hang_s} s of real time")
        except Exception as e:
            if core.in_wax(e):
                ctx.violate("unexpected-exception", f"{type(e).__name__}: {e}\n{core.short_tb(e)}", type(e).__name__)
            else:
                err = traceback.format_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            gc.enable()
            self.seams.set_env(None)
        return {
            "violations": ctx.violations,
            "harness_error": err,
            "digest": ctx.h.hexdigest()[:16],
            "n_log": ctx.n_log,
            "faults": ctx.faults,
            "probes": ctx.probes,
            "sim_time": ctx.sim_time,
            "states": sorted(ctx.states),
            "nontrivial": ctx.nontrivial,
            "scenario_out": getattr(ctx, "scenario_out", None),
            "log": ctx.log_lines if keep_log else None,
        }


def quiet_stdout():
    """Keep fd 1 for protocol lines; everything the code prints goes nowhere."""
    out = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = os.fdopen(os.dup(1), "w")
    return out


def cmd_worker(a):
    out = quiet_stdout()
    w = Worker(a.prop, a.seed, a.tier)
    t_end = T_REAL() + a.soft
    for idx in range(a.lane, a.runs, N_LANES) if a.only is None else [a.only]:
        if T_REAL() > t_end or (a.stop and os.path.exists(a.stop)):
            out.write(json.dumps({"stopped": idx}) + "\n")
            break
        sc = None
        try:
            sc = w.generate(idx)
        except Exception:
            out.write(json.dumps({"idx": idx, "harness_error": traceback.format_exc()}) + "\n")
            continue
        r = w.execute(sc)
        r["idx"] = idx
        r["key"] = hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16]
        if r["violations"] or r["harness_error"] or idx < N_LANES:
            r["scenario"] = sc
        out.write(json.dumps(r) + "\n")
    out.write(json.dumps({"end": True}) + "\n")
    out.flush()
    os._exit(0)


def cmd_shrink(a):
    """Minimise one failing scenario (file) and write the replay file."""
    out = quiet_stdout()
    with open(a.file) as f:
        job = json.load(f)
    w = Worker(job["property"], job["seed"], job["tier"])
    core = w.core
    t0 = T_REAL()
    sc = job["scenario"]
    want = job["signature"]
    tries = [0]

    def result(s):
        tries[0] += 1
        r = w.execute(s)
        if r["harness_error"]:
            return None
        return r

    def fails(s):
        r = result(s)
        return r is not None and any(v["signature"] == want for v in r["violations"])

    reproduced = fails(sc)
    if reproduced:
        # put the recorded schedule into the scenario, if the check has one
        r = w.execute(sc)
        if r.get("scenario_out"):
            if fails(r["scenario_out"]):
                sc = r["scenario_out"]

        def budget():
            return T_REAL() - t0 < a.soft and tries[0] < 400

        lists = list(getattr(w.mod, "SHRINK_LISTS", ["ops"]))
        ints = list(getattr(w.mod, "SHRINK_INTS", []))
        w.hang_s = min(w.hang_s, 30)
        if want.endswith(":no-progress") is False:
            sc = core.shrink(sc, fails, lists, ints, budget)
    w.hang_s = getattr(w.mod, "HANG_S", 90)
    r = w.execute(sc)
    v = next((v for v in r["violations"] if v["signature"] == want), None)
    replay = {
        "property": job["property"],
        "seed": job["seed"],
        "run": job["idx"],
        "hashseed": job["hashseed"],
        "tier": job["tier"],
        "signature": want,
        "violation": v or job["violation"],
        "scenario": sc,
        "digest": r["digest"],
        "minimise": {"executions": tries[0], "seconds": round(T_REAL() - t0, 1), "reproduced_in_fresh_process": reproduced},
    }
    with open(a.out, "w") as f:
        json.dump(replay, f, indent=1)
    out.write(json.dumps({"ok": v is not None}) + "\n")
    out.flush()
    os._exit(0)


def cmd_replay(a):
    with open(a.file) as f:
        job = json.load(f)
    hs = str(job.get("hashseed", 0))
    if os.environ.get("PYTHONHASHSEED") != hs or os.environ.get("SIM_REPLAY") != "1":
        env = child_env(int(hs))
        env["SIM_REPLAY"] = "1"
        os.chdir(VERIF)
        os.execve(PY, [PY, "-m", "sim", "replay", os.path.abspath(a.file)] + (["--json"] if a.json else []) + (["--log"] if a.log else []), env)
    out = quiet_stdout()
    w = Worker(job["property"], job["seed"], job["tier"])
    r = w.execute(job["scenario"], keep_log=a.log)
    if a.json:
        out.write(json.dumps(r) + "\n")
        out.flush()
        os._exit(0)
    if a.log:
        out.write("\n".join(r["log"]) + "\n")
    if r["harness_error"]:
        out.write(r["harness_error"] + "\n")
    for v in r["violations"]:
        out.write(f"{v['signature']}: {v['message']}\n")
    code = 2 if r["harness_error"] and not r["violations"] else 0
    if any(v["signature"] == job["signature"] for v in r["violations"]):
        out.write(f"digest {r['digest']} (recorded {job.get('digest')})\n")
        out.write(f"VIOLATION property={job['property']} replay={a.file}\n")
        code = 1
    out.flush()
    os._exit(code)


# ------------------------------------------------------------------ the parent


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    found = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get("property") == prop and k.get("status") == "known":
                        found.append(k)
    return found


def run_json(args, lane, timeout):
    p = subprocess.run([PY, "-m", "sim"] + args, cwd=VERIF, env=child_env(lane), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    lines = [x for x in p.stdout.splitlines() if x.startswith("{")]
    if not lines:
        raise RuntimeError(f"{args}: no answer (exit {p.returncode}) {p.stderr[-2000:]}")
    return json.loads(lines[-1])


def spawn_workers(prop, seed, tier, runs, soft, stop, tag=""):
    procs = []
    for lane in range(N_LANES):
        cmd = [PY, "-m", "sim", "worker", prop, "--seed", str(seed), "--tier", tier, "--runs", str(runs), "--lane", str(lane), "--soft", str(soft)]
        if stop:
            cmd += ["--stop", stop]
        err = open(f"{tag}.{lane}.err", "w+") if tag else subprocess.DEVNULL
        procs.append((lane, subprocess.Popen(cmd, cwd=VERIF, env=child_env(lane), stdout=subprocess.PIPE, stderr=err, text=True, start_new_session=True), err))
    return procs


def collect(procs, hard, on_line):
    """Read JSON lines of all workers until they end; returns lanes that failed."""
    bad = {}
    lock = threading.Lock()

    def reader(lane, p, err):
        ended = False
        for line in p.stdout:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r.get("end"):
                ended = True
                continue
            with lock:
                on_line(lane, r)
        rc = p.wait()
        if not ended or rc != 0:
            msg = ""
            if hasattr(err, "seek"):
                err.flush()
                err.seek(0)
                msg = err.read()[-3000:]
            bad[lane] = f"worker {lane} ended with {rc}: {msg}"

    ths = [threading.Thread(target=reader, args=x, daemon=True) for x in procs]
    for t in ths:
        t.start()
    t_end = T_REAL() + hard
    for t in ths:
        t.join(max(t_end - T_REAL(), 0.1))
    for lane, p, err in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            bad[lane] = f"worker {lane} killed at the hard limit"
    for t in ths:
        t.join(5)
    return bad


def cmd_check(a):
    t0 = T_REAL()
    prop, tier, seed = a.prop, a.tier, a.seed
    meta = prop_meta(prop)
    runs = a.runs or meta["RUNS"][tier]
    soft, hard = LIMITS[tier]
    scratch = os.path.join(VERIF, "build", f"{prop}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    print(f"seed {seed} property {prop} tier {tier} runs {runs}", flush=True)
    stop = os.path.join(scratch, "stop")
    agg = {"n": 0, "nontrivial": set(), "keys": set(), "faults": {}, "probes": {}, "sim": 0.0, "states": set(), "logs": 0, "samples": [], "stopped": 0, "digests": {}}
    viol, herr = [], []
    known = {k["signature"]: k for k in known_findings(prop)}
    known_hits = {}

    def on_line(lane, r):
        if "stopped" in r:
            agg["stopped"] += 1
            return
        if r.get("harness_error"):
            herr.append(r)
        if "violations" not in r:
            return
        agg["n"] += 1
        agg["keys"].add(r["key"])
        if r["nontrivial"]:
            agg["nontrivial"].add(r["key"])
        for k, v in r["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in r["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["sim"] += r["sim_time"]
        agg["states"].update(r["states"])
        agg["logs"] += r["n_log"]
        agg["digests"][r["idx"]] = r["digest"]
        if r.get("scenario") is not None and len(agg["samples"]) < 3 and not r["violations"]:
            agg["samples"].append({"run": r["idx"], "scenario": trim(r["scenario"])})
        new = []
        for v in r["violations"]:
            if v["signature"] in known:
                known_hits[v["signature"]] = known_hits.get(v["signature"], 0) + 1
            else:
                new.append(v)
        if new:
            viol.append((r["idx"], lane, new[0], r["scenario"]))
            if len(viol) == 1:
                with open(stop, "w"):
                    pass

    procs = spawn_workers(prop, seed, tier, runs, soft, stop, os.path.join(scratch, "w"))
    bad = collect(procs, hard, on_line)

    code, lines = 0, []
    replay_path = None
    if viol:
        viol.sort(key=lambda x: x[0])
        for idx, lane, v, sc in viol[:3]:
            job = {"property": prop, "seed": seed, "tier": tier, "idx": idx, "hashseed": lane, "signature": v["signature"], "violation": v, "scenario": sc}
            jf = os.path.join(scratch, f"job{idx}.json")
            with open(jf, "w") as f:
                json.dump(job, f)
            rp = os.path.join(replays, f"{prop}-{seed}-{idx}.json")
            try:
                r = run_json(["shrink", jf, "--out", rp, "--soft", "60" if tier == "quick" else "300"], lane, 400)
                if not r["ok"]:
                    raise RuntimeError("did not reproduce in a fresh process")
                p = subprocess.run([PY, "-m", "sim", "replay", rp], cwd=VERIF, env=child_env(lane), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240, text=True)
                if p.returncode != 1:
                    raise RuntimeError("minimised scenario did not reproduce in a fresh process: " + p.stdout[-500:] + p.stderr[-500:])
                with open(rp) as f:
                    sc_min = json.load(f)
                lines.append(f"{sc_min['violation']['signature']}: {sc_min['violation']['message']}")
                lines.append(f"VIOLATION property={prop} replay={rp}")
                replay_path, code = rp, 1
                break
            except Exception as e:
                lines.append(f"run {idx} {v['signature']}: {v['message'][:500]}\n  not confirmed: {e}")
        if code == 0:
            code = 2
            lines.append(f"harness: violation seen in run(s) {[x[0] for x in viol[:3]]} but not reproduced")
    if code == 0:
        for k in known.values():
            rp = os.path.join(VERIF, k["replay"])
            r = run_json(["replay", rp, "--json"], 0, 240)
            sigs = [v["signature"] for v in r["violations"]]
            if k["signature"] in sigs:
                lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
            other = [v for v in r["violations"] if v["signature"] not in known]
            if other:
                lines.append(f"{other[0]['signature']}: {other[0]['message']}")
                lines.append(f"VIOLATION property={prop} replay={rp}")
                code = 1
    if code == 0:
        if herr:
            code = 2
            lines.append(f"harness error in {len(herr)} run(s), first: run {herr[0].get('idx')}\n{herr[0]['harness_error']}")
        if bad:
            code = 2
            lines += list(bad.values())
        if agg["n"] < max(runs * 0.1, 1):
            code = 2
            lines.append(f"only {agg['n']} of {runs} runs finished")
    wall = T_REAL() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": meta["LEVEL"],
        "wall_s": round(wall, 2),
        "violations": len(viol),
        "assumptions": meta["ASSUMPTIONS"],
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": meta["RULE"],
            "samples": agg["samples"] or [{"note": "no sample: every run reported"}],
            "runs_planned": runs,
            "runs_cut_by_time_budget": agg["stopped"],
            "simulated_runs_per_hour": round(agg["n"] / max(wall, 1e-9) * 3600),
            "seeds": 1,
            "scenario_seeds_per_hour": round(len(agg["keys"]) / max(wall, 1e-9) * 3600),
            "simulated_time_s": round(agg["sim"], 3),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes_hit": dict(sorted(agg["probes"].items())),
            "distinct_states": len(agg["states"]),
            "state_measure": meta["STATE_MEASURE"],
            "log_events": agg["logs"],
            "log_digest_of_batch": hashlib.sha256(json.dumps(sorted(agg["digests"].items())).encode()).hexdigest()[:16],
            "real_components": meta["REAL"],
            "stub_components": meta["STUB"],
            "known_findings_hit": known_hits,
            "replay": replay_path,
        },
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name in os.listdir(scratch):
        os.unlink(os.path.join(scratch, name))
    os.rmdir(scratch)
    zero = [p for p in meta["PROBES"] if not agg["probes"].get(p)]
    if zero and code == 0:
        print(f"note: probes never hit: {zero}")
    print(f"{agg['n']} runs, {len(agg['nontrivial'])} distinct non-trivial, faults {agg['faults']}, {wall:.1f} s")
    for x in lines:
        print(x)
    sys.stdout.flush()
    return code


def trim(x, n=40):
    if isinstance(x, list):
        return [trim(v, n) for v in x[:n]] + ([f"... {len(x) - n} more"] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    return x


def prop_meta(prop):
    """Constants of the property module, read without importing it."""
    import ast

    d = os.path.join(VERIF, "sim", "props")
    name = next(n for n in sorted(os.listdir(d)) if n.startswith(prop.lower() + "_") and n.endswith(".py"))
    with open(os.path.join(d, name)) as f:
        tree = ast.parse(f.read())
    meta = {"LEVEL": "exploration", "ASSUMPTIONS": [], "PROBES": []}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                meta[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return meta


def cmd_determinism(a):
    """Same seeds, different process layouts and hash seeds: digests must agree."""
    props = a.props or all_props()
    fail = 0
    for prop in props:
        sets = []
        for k in range(2):
            got = {}
            procs = spawn_workers(prop, a.seed + a.shift, "quick", a.runs, 1e9, None)
            bad = collect(procs, 3000, lambda lane, r: got.__setitem__(r["idx"], (r["digest"], r["harness_error"])) if "idx" in r else None)
            if bad:
                print(prop, bad)
                fail = 1
            sets.append(got)
        diff = [i for i in sets[0] if sets[0][i] != sets[1].get(i)]
        herr = [i for i in sets[0] if sets[0][i][1]]
        # other hash seeds, one process: a sample
        other = {}
        cmd = [PY, "-m", "sim", "worker", prop, "--seed", str(a.seed + a.shift), "--tier", "quick", "--runs", str(min(a.runs, 24)), "--lane", "0", "--soft", "1e9"]
        for lane in range(N_LANES):
            cmd[cmd.index("--lane") + 1] = str(lane)
            p = subprocess.Popen(cmd, cwd=VERIF, env=child_env(lane + (0 if prop_meta(prop).get('HASH_SENSITIVE', False) else 77)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            for line in p.stdout:
                r = json.loads(line)
                if "idx" in r:
                    other[r["idx"]] = (r["digest"], r["harness_error"])
            p.wait()
        diff2 = [i for i in other if other[i] != sets[0].get(i)]
        # late runs again, each in a fresh process: nothing carries over between runs
        alone = {}
        late = list(range(a.runs - 1, -1, -1))[:16]
        jobs = [(i, subprocess.Popen(cmd[: cmd.index("--lane")] + ["--lane", str(i % N_LANES), "--soft", "1e9", "--only", str(i)], cwd=VERIF, env=child_env(i % N_LANES), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for i in late]
        for _, p in jobs:
            for line in p.stdout:
                r = json.loads(line)
                if "idx" in r:
                    alone[r["idx"]] = (r["digest"], r["harness_error"])
            p.wait()
        diff3 = [i for i in late if alone.get(i) != sets[0].get(i)]
        print(f"{prop}: {len(alone)} late runs in fresh processes, {len(diff3)} differ {diff3[:5]}", flush=True)
        diff2 += diff3
        print(f"{prop}: {len(sets[0])} runs twice, {len(diff)} differ {diff[:5]}; {len(other)} runs under another hash seed and in one process at a time, {len(diff2)} differ {diff2[:5]}; harness errors {herr[:3]}", flush=True)
        fail |= bool(diff or diff2 or herr)
    return 1 if fail else 0


def cmd_selftest(a):
    """The seams go in, wax comes from /repo, and the scheduler replays exactly."""
    env = child_env(0)
    if os.environ.get("SIM_REPLAY") != "1":
        env["SIM_REPLAY"] = "1"
        os.chdir(VERIF)
        os.execve(PY, [PY, "-m", "sim", "selftest"], env)
    sys.path.insert(0, VERIF)
    from sim import seams

    seams.install()
    import wax

    assert wax.__file__.startswith("/repo/src/"), wax.__file__
    from sim import core, sched

    def race(policy):
        env = seams.Env()
        seams.set_env(env)
        s = sched.Scheduler(policy, env, granularity="none")
        trail, lock = [], sched.SimLock()

        def body(n):
            for i in range(5):
                with lock:
                    trail.append((n, i))
                sched.point()
                s.sleep(0.1 * n)

        for n in range(3):
            s.spawn(lambda n=n: body(n))
        s.run()
        seams.set_env(None)
        return trail

    p = sched.Policy(core.rng_for(1, "selftest"), 0.3)
    a1 = race(p)
    assert a1 == race(sched.Policy(decisions=p.record)), "replay differs"
    assert a1 == race(sched.Policy(core.rng_for(1, "selftest"), 0.3)), "seed differs"
    assert a1 != race(sched.Policy(core.rng_for(2, "selftest"), 0.3)), "seeds agree"
    print("selftest ok:", wax.__file__, len(all_props()), "properties")
    return 0


def all_props():
    d = os.path.join(VERIF, "sim", "props")
    return sorted(n.split("_")[0].upper() for n in os.listdir(d) if n.startswith("c") and n.endswith(".py") and n[1:3].isdigit())


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    s = sub.add_parser("check")
    s.add_argument("prop")
    s.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    s.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    s.add_argument("--runs", type=int, default=0)
    s = sub.add_parser("worker")
    s.add_argument("prop")
    for n, t in (("seed", int), ("runs", int), ("lane", int), ("soft", float)):
        s.add_argument("--" + n, type=t, required=True)
    s.add_argument("--tier", required=True)
    s.add_argument("--stop")
    s.add_argument("--only", type=int)
    s = sub.add_parser("shrink")
    s.add_argument("file")
    s.add_argument("--out", required=True)
    s.add_argument("--soft", type=float, default=60)
    s = sub.add_parser("replay")
    s.add_argument("file")
    s.add_argument("--json", action="store_true")
    s.add_argument("--log", action="store_true")
    sub.add_parser("selftest")
    s = sub.add_parser("determinism")
    s.add_argument("props", nargs="*")
    s.add_argument("--runs", type=int, default=40)
    s.add_argument("--seed", type=int, default=1)
    s.add_argument("--shift", type=int, default=1000)
    a = ap.parse_args()
    code = {"check": cmd_check, "worker": cmd_worker, "shrink": cmd_shrink, "replay": cmd_replay, "determinism": cmd_determinism, "selftest": cmd_selftest}[a.cmd](a)
    sys.exit(code or 0)
