"""C15 - the memory tracker reports true sizes and growth under any interleaving."""

import math

import numpy as np

RUNS = {"quick": 8000, "thorough": 60000}
SEARCH = "schedules of 1-4 threads at line and bytecode granularity, memory curves, unreadable readings, clock jumps and failing tracked code"
RULE = (
    "One run lets 1-4 simulated threads take snapshots (directly or through the decorator), read summaries and reports, reset "
    "and switch the tracker, while the scheduler preempts them anywhere and the simulated process memory moves, drops or "
    "cannot be read. The history must be linearizable against a list of snapshots; sizes are those of the given states, memory "
    "values are readings taken during the call, totals add up, steady growth is reported at its rate per step and constant or "
    "shrinking memory never. Non-trivial: a snapshot was taken."
)
STATE_MEASURE = "distinct preemption sites (file, function, line or instruction) in wax, and distinct orders of operation begins and ends"
REAL = ["wax.flax.debug.memory_tracker", "Python threads (scheduled one at a time)"]
STUB = ["clock (wall and monotonic)", "threading locks", "psutil, gc and tracemalloc readings", "the tracked model (a function that sleeps, fails or returns arrays)"]
ASSUMPTIONS = ["how strong growth must be to be reported is judged with a factor two of tolerance around the documented threshold"]
PROBES = ["direct", "decorator", "skipped", "forced", "reset", "disable", "overflow", "metrics-fail", "first-reading-fails", "leak", "constant", "growth", "module", "report", "raise", "clock-jump-back"]
SHRINK_LISTS = ["threads", "threads.*", "curve", "sched.decisions"]
SHRINK_INTS = [("steps", 1)]

MODS = ["a", "ab"]  # one name contains the other
MB = 2**20


def gen(rng, idx, tier):
    from sim.race import schedule

    base = {"sched": schedule(rng), "interval": rng.choice([1, 1, 2, 3, 10]), "max": rng.choice([1, 2, 4, 1000, 1000]), "leak": rng.choice([1.0, 10.0]), "fail": rng.choice(["access", "gone", "os", "value"])}
    if rng.random() < 0.35:
        shape = rng.choice(["constant", "linear", "linear", "shrink", "noise", "step", "saw"])
        n = rng.randrange(5, 40)
        rate = rng.choice([0.05, 0.3, 1.0, 5.0, 30.0])
        noise = [rng.uniform(-1, 1) for _ in range(n)]
        curve = []
        for t in range(n):
            v = {"constant": 0, "linear": rate * t, "shrink": -min(rate * t, 300.0), "noise": rate * noise[t], "step": rate * (t > n // 2), "saw": rate * (t % 7)}[shape]
            curve.append(round(500 + v, 4))
        gaps = sorted(rng.sample(range(n), rng.randrange(0, max(2, n // 3)))) if rng.random() < 0.5 else []
        if rng.random() < 0.3:
            gaps = sorted(set(gaps) | set(range(rng.randrange(1, 4))))
        base.update({"style": "curve", "shape": shape, "rate": rate, "curve": curve, "gaps": gaps, "forced": rng.random() < 0.3, "threads": [], "mods": [rng.choice(["m", "m", "mm"]) for _ in range(n)], "resets": [rng.randrange(n) for _ in range(rng.choice([0, 0, 1, 2]))], "max": rng.choice([5, 20, 1000])})
        return base
    n = rng.choice([1, 2, 2, 3, 3, 4])
    style = rng.choice(["mix", "mix", "snaps", "resets", "switch"])
    kinds = ["snap"] * 5 + ["wrap"] * 2 + ["summary", "module", "module", "report", "rss", "rss", "fail", "heal", "jump"]
    if style != "snaps":
        kinds += ["reset"] * (3 if style == "resets" else 1)
    total = rng.randrange(3, 13)
    threads = []
    for t in range(n):
        ops = []
        for _ in range(max(1, total // n + rng.randrange(-1, 2))):
            k = rng.choice(kinds)
            if style == "switch" and t == 0 and rng.random() < 0.4:
                k = rng.choice(["off", "on"])
            op = {"k": k, "m": rng.choice(MODS), "force": rng.random() < 0.6, "d": rng.choice([0.0, 0.0, 0.01])}
            if k == "rss":
                op["mb"] = rng.choice([1, 100, 100, 200, 1000])
            if k == "jump":
                op["by"] = rng.choice([-86400.0, 3600.0])
            if k == "wrap":
                op["raise"] = rng.random() < 0.25
            if k in ("snap", "wrap"):
                op["shape"] = rng.choice(["flax", "flat", "array", "none"]) if k == "snap" else "flax"
            ops.append(op)
        threads.append(ops)
    base.update({"style": style, "threads": threads})
    return base


def make_state(kind, i):
    """State whose sizes tell the observation: (state, (state, params, buffers) bytes)."""
    if kind == "flax":
        return {"params": {"w": np.zeros(3 * i, np.int8)}, "state": {"my_Buffer_0": {"x": np.zeros(5 * i, np.int8)}, "other": np.zeros(2 * i, np.int8)}}, (7 * i, 3 * i, 5 * i)
    if kind == "flat":
        return {"cache": [np.zeros(4 * i, np.int8), {"b": np.zeros(3 * i, np.int8)}]}, (7 * i, 0, 0)
    if kind == "array":
        return np.zeros(7 * i, np.int8), (7 * i, 0, 0)
    return None, (0, 0, 0)


def run(sc, ctx):
    if sc["style"] == "curve":
        return run_curve(sc, ctx)
    return run_race(sc, ctx)


def failure(kind):
    import psutil

    return {"access": psutil.AccessDenied(1), "gone": psutil.NoSuchProcess(1), "os": OSError("proc"), "value": ValueError("unreadable")}[kind]


def run_curve(sc, ctx):
    """One thread, a memory curve: what is reported about growth."""
    from wax.flax.debug import memory_tracker as M

    from sim import seams

    env = seams.Env()
    seams.set_env(env)
    ivl = sc["interval"]
    tr = M.MemoryTracker(snapshot_interval=ivl, leak_detection_threshold_mb=sc["leak"], max_snapshots=sc["max"])
    taken = []  # (step, mb or None)
    step = 0
    ctx.probe(sc["shape"] if sc["shape"] == "constant" else "growth")
    known_so_far, kept_mods = [], []
    for t, mb in enumerate(sc["curve"]):
        if t in sc["resets"]:  # starts like a fresh tracker
            tr.reset()
            ctx.probe("reset")
            taken, known_so_far, step, kept_mods = [], [], 0, []
            ctx.check(not tr.detected_leaks and not tr.snapshots, "reset-incomplete", "snapshots or leaks after a reset")
        if t in sc["gaps"]:
            env.proc.fail = failure(sc["fail"])
            ctx.fault("metrics-unreadable")
            ctx.probe("metrics-fail")
            if not known_so_far:
                ctx.probe("first-reading-fails")
        else:
            env.proc.fail = None
        env.proc.rss = int(mb * MB)
        n_calls = 1 if sc["forced"] else ivl
        before = list(tr.detected_leaks)
        for c in range(n_calls):
            step += 1
            with ctx.guard("snapshot-failed"):
                s = tr.take_snapshot(sc["mods"][t % len(sc["mods"])], np.zeros(7 * t, np.int8), force=sc["forced"])
        if s is None:
            ctx.fail("snapshot-missing", f"no snapshot at step {step}, interval {ivl}")
        ctx.check(s.step == step, "wrong-step", lambda: f"{s.step} instead of {step}")
        read = None if t in sc["gaps"] else env.proc.rss / MB
        if read is not None:
            known_so_far.append(read)
            ctx.check(abs(s.process_memory_mb - read) < 1e-9, "wrong-memory", lambda: f"{s.process_memory_mb} MB, the process had {read} MB")
            if not taken:
                ctx.check(s.memory_delta_mb == 0, "wrong-memory", lambda: f"delta {s.memory_delta_mb} of the first snapshot", "first-delta")
            elif taken[-1][1] is not None:
                d = read - taken[-1][1]
                ctx.check(abs(s.memory_delta_mb - d) < 1e-9, "wrong-memory", lambda: f"delta {s.memory_delta_mb}, the readings moved by {d}", "delta")
        elif known_so_far:
            ctx.check(s.process_memory_mb in (0.0, known_so_far[-1]) or math.isnan(s.process_memory_mb), "wrong-memory", lambda: f"{s.process_memory_mb} MB while nothing can be read", "unreadable")
        taken.append((step, read))
        kept_mods.append((sc["mods"][t % len(sc["mods"])], read, 7 * t / MB))
        win = taken[-min(10, sc["max"]) :]
        known = [(a, b) for a, b in win if b is not None]
        new = [x for x in tr.detected_leaks if all(x is not y for y in before)]
        growth_leaks = [x for x in new if x.leak_type == "growing_memory"]
        ctx.log(step, len(tr.detected_leaks))
        vals = [b for _, b in known]
        if growth_leaks:
            ctx.probe("leak")
        # what cannot be read does not tell whether memory grew since: the last known value counts
        filled, cur = [], None
        for _, b in taken:
            cur = b if b is not None else cur
            filled.append(cur)
        filled = [b for b in filled[-len(win) :] if b is not None]
        if all(b <= a for a, b in zip(filled, filled[1:])):
            ctx.check(not growth_leaks, "false-leak", lambda: f"leak reported on memory {filled}: {growth_leaks}", sc["shape"])
        for leak in growth_leaks:
            slopes = [(y2 - y1) / (x2 - x1) for i, (x1, y1) in enumerate(known) for x2, y2 in known[i + 1 :]]
            if not slopes or any(b is None for _, b in win):
                continue
            ctx.check(min(slopes) - 1e-9 <= leak.growth_rate_mb_per_step <= max(slopes) + 1e-9, "wrong-growth", lambda: f"{leak.growth_rate_mb_per_step} MB per step, the readings grow by {min(slopes)} to {max(slopes)} MB per step", "rate")
            ctx.check(abs(leak.total_leaked_mb - (vals[-1] - vals[0])) < 1e-6, "wrong-growth", lambda: f"total {leak.total_leaked_mb}, the readings grew by {vals[-1] - vals[0]}", "total")
            ctx.check((leak.first_detected_step, leak.last_detected_step) == (win[0][0], win[-1][0]), "wrong-growth", lambda: f"steps {leak.first_detected_step}-{leak.last_detected_step}, analysed {win[0][0]}-{win[-1][0]}", "steps")
            tot = leak.total_leaked_mb
            sev = "critical" if tot > 100 else "high" if tot > 50 else "medium" if tot > 20 else "low"
            ctx.check(leak.severity == sev, "wrong-growth", lambda: f"{tot} MB is {leak.severity}", "severity")
        per_step = 1 if sc["forced"] else ivl
        if sc["shape"] == "linear" and len(win) == min(10, sc["max"]) >= 5 and all(b is not None for _, b in win):
            tot, rate = vals[-1] - vals[0], sc["rate"] / per_step
            if tot > 2 * sc["leak"] and rate > 2 * sc["leak"] / 100:
                ctx.check(bool(growth_leaks), "leak-missed", lambda: f"memory grew by {tot} MB, {rate} MB per step, threshold {sc['leak']} MB; nothing reported")
    ctx.sim_time += env.clock.mono
    with ctx.guard("read-failed"):
        s = tr.get_memory_summary()
        rep = tr.generate_memory_report()
    ctx.check(isinstance(rep, str), "read-failed", "report")
    kept = [b for _, b in taken][-sc["max"] :]
    ctx.check("session" in s and s["session"]["total_snapshots"] == len(kept) and s["session"]["total_steps"] == step, "does-not-add-up", lambda: f"{s['session']}, {len(kept)} snapshots kept, {step} steps")
    if all(b is not None for b in kept):
        st = s["statistics"]
        for k, v in (("peak_memory_mb", max(kept)), ("min_memory_mb", min(kept)), ("avg_memory_mb", sum(kept) / len(kept)), ("total_growth_mb", kept[-1] - kept[0])):
            ctx.check(abs(st[k] - v) < 1e-6, "does-not-add-up", lambda: f"{k} {st[k]}, the readings give {v}", k)
    ctx.check(s["leaks"]["total_detected"] == len(tr.detected_leaks), "does-not-add-up", "leaks", "leaks")
    for m in sorted(set(sc["mods"])):
        mine = [(b, z) for name, b, z in kept_mods[-sc["max"] :] if name == m]
        with ctx.guard("read-failed"):
            a = tr.get_module_memory_analysis(m)
        if not mine:
            ctx.check("error" in a, "does-not-add-up", lambda: f"analysis of {m}, which has no snapshot: {a}", "module")
            continue
        ctx.probe("module")
        ctx.check("error" not in a and a["module_name"] == m and a["snapshots_count"] == len(mine), "does-not-add-up", lambda: f"{len(mine)} snapshots of {m}: {a}", "module")
        want = {"state_memory": [z for _, z in mine]}
        if all(b is not None for b, _ in mine):
            want["memory_usage"] = [b for b, _ in mine]
        for part, v in want.items():
            for name, w in (("current_mb", v[-1]), ("peak_mb", max(v)), ("avg_mb", sum(v) / len(v)), ("growth_mb", v[-1] - v[0])):
                if name in a[part]:
                    ctx.check(abs(a[part][name] - w) < 1e-6, "does-not-add-up", lambda: f"{m}: {part} {name} {a[part][name]}, the snapshots give {w}", "module-" + name)
    bounds(ctx, tr, sc)
    ctx.state("curve", sc["shape"], sc["rate"], ivl, bool(sc["gaps"]), len(tr.detected_leaks) > 0)


def bounds(ctx, tr, sc):
    for name in ("snapshots", "detected_leaks"):
        ctx.check(len(getattr(tr, name)) <= sc["max"], "history-overflow", lambda: f"{len(getattr(tr, name))} {name} kept, limit {sc['max']}", name)
    for name in ("module_memory_usage", "state_memory_history"):
        for k, v in dict(getattr(tr, name, {})).items():
            ctx.check(len(v) <= sc["max"], "history-overflow", lambda: f"{len(v)} {name} kept, limit {sc['max']}", name)


def run_race(sc, ctx):
    from wax.flax.debug import memory_tracker as M

    from sim import sched
    from sim.lin import Budget, linearize
    from sim.props.c13_profiler import flags
    from sim.race import Race

    R = Race(ctx, sc)
    env = R.env
    t_created = R.mono()
    tr = M.MemoryTracker(snapshot_interval=sc["interval"], leak_detection_threshold_mb=sc["leak"], max_snapshots=sc["max"])
    ids = iter(range(1, 1000))
    sizes = {}
    readings = [(0, env.proc.rss / MB)]  # (time, MB or None) changes of what can be read
    parts = {}

    class Boom(Exception):
        pass

    def model_apply(params, state, rng, x):
        op, i = params
        o = parts[sched.current().cur_task.idx]
        o["before_ret"] = R.now()
        R.sleep(op["d"])
        if op["raise"]:
            raise Boom
        o["after_inv"] = R.now()
        return x, make_state(op["shape"], i)[0]

    class Model:
        init = staticmethod(lambda rng, x: ({}, {}))
        apply = staticmethod(model_apply)
        __name__ = "model"

    wrapped = {m: M.track_memory_usage(tr, m)(Model) for m in MODS}

    def do(op):
        k = op["k"]
        if k == "snap":
            i = next(ids)
            st, sizes[i] = make_state(op["shape"], i)
            o = R.op("snap", lambda: tr.take_snapshot(op["m"], st, op["force"]), id=i, mod=op["m"], force=op["force"], what=i if op["shape"] != "none" else ("n", op["m"]))
            ctx.probe("direct")
            if o["exc"] is not None:
                ctx.violate("snapshot-failed", f"take_snapshot raised {o['exc']!r}", type(o["exc"]).__name__)
            else:
                ctx.probe("skipped" if o["res"] is None else "forced" if op["force"] else "direct")
        elif k == "wrap":
            i = next(ids)
            sizes[i] = make_state("flax", i)[1]
            part = parts[sched.current().cur_task.idx] = {}
            x = object()
            o = R.op("wrap", lambda: wrapped[op["m"]].apply((op, i), {}, None, x))
            ctx.probe("decorator")
            if op["raise"]:
                ctx.probe("raise")
                ctx.fault("tracked-code-raises")
                ctx.check(isinstance(o["exc"], Boom), "wrong-exception", lambda: f"the tracked code raised Boom, the caller got {o['exc']!r}")
            elif o["exc"] is not None:
                ctx.violate("snapshot-failed", f"the tracked function raised {o['exc']!r}", "decorator")
            else:
                ctx.check(o["res"][0] is x, "wrong-result", "the tracked function's result is changed")
            if "before_ret" in part:
                R.hist.append({"kind": "snap", "inv": o["inv"], "ret": part["before_ret"], "mod": op["m"], "force": False, "what": ("n", op["m"]), "res": "?", "exc": None})
            if "after_inv" in part and o["exc"] is None:
                R.hist.append({"kind": "snap", "inv": part["after_inv"], "ret": o["ret"], "mod": op["m"], "force": False, "what": i, "res": "?", "exc": None})
        elif k == "summary":
            o = R.op("summary", tr.get_memory_summary)
            ctx.check(o["exc"] is None, "read-failed", lambda: f"get_memory_summary raised {o['exc']!r}", "summary")
        elif k == "module":
            o = R.op("module", lambda: tr.get_module_memory_analysis(op["m"]), mod=op["m"])
            ctx.probe("module")
            ctx.check(o["exc"] is None, "read-failed", lambda: f"get_module_memory_analysis raised {o['exc']!r}", "module")
        elif k == "report":
            o = R.op("report", tr.generate_memory_report)
            ctx.probe("report")
            ctx.check(o["exc"] is None and isinstance(o["res"], str), "read-failed", lambda: f"generate_memory_report raised {o['exc']!r}", "report")
        elif k == "reset":
            R.op("reset", tr.reset)
            ctx.probe("reset")
        elif k in ("on", "off"):
            R.op(k, tr.enable if k == "on" else tr.disable)
            ctx.probe("disable")
        elif k == "rss":
            env.proc.rss = op["mb"] * MB
            readings.append((R.now(), None if env.proc.fail else float(op["mb"])))
            ctx.fault("memory-change")
        elif k == "fail":
            env.proc.fail = failure(sc["fail"])
            readings.append((R.now(), None))
            ctx.fault("metrics-unreadable")
            ctx.probe("metrics-fail")
        elif k == "heal":
            env.proc.fail = None
            readings.append((R.now(), env.proc.rss / MB))
        elif k == "jump":
            env.clock.jump(op["by"])
            if op["by"] < 0:
                ctx.probe("clock-jump-back")

    def thread(ops):
        def body():
            for op in ops:
                do(op)

        return body

    if not R.run([thread(ops) for ops in sc["threads"]]):
        return
    last = R.op("summary", tr.get_memory_summary)
    if last["exc"] is not None:
        ctx.fail("read-failed", f"get_memory_summary raised {last['exc']!r}", "summary")
    env.proc.fail = None
    bounds(ctx, tr, sc)

    by_size = {v: i for i, v in sizes.items() if v != (0, 0, 0)}

    def key(s):
        b = tuple(round(x * MB) for x in (s.state_variables_mb, s.parameters_mb, s.buffers_mb))
        return by_size.get(b, ("n", s.module_name) if b == (0, 0, 0) else ("?", b))

    # --- sizes and readings of every snapshot seen
    snaps = {id(s): s for s in list(tr.snapshots) + [o["res"] for o in R.hist if o["kind"] == "snap" and o["res"] not in (None, "?")]}
    for s in snaps.values():
        k = key(s)
        if isinstance(k, tuple) and k[0] == "?":
            ctx.violate("wrong-size", f"snapshot of {s.module_name} has sizes {k[1]}, no state given was that large")
            continue
        owners = [o for o in R.hist if o["kind"] == "snap" and o["what"] == k and o["mod"] == s.module_name]
        ctx.check(bool(owners), "invented-snapshot", lambda: f"snapshot {s.module_name} {k} belongs to no call")
        seen = set()
        for o in owners:
            cur = None
            for t, v in readings:
                if t < o["inv"]:
                    cur = (v,)
                elif t <= o["ret"]:
                    seen.add(v)
            if cur:
                seen.add(cur[0])
        ok = any(v is not None and abs(s.process_memory_mb - v) < 1e-9 for v in seen)
        if None in seen:  # could not be read: the last known reading, or none
            ok = ok or s.process_memory_mb == 0.0 or any(v is not None and abs(v - s.process_memory_mb) < 1e-9 for _, v in readings)
        ctx.check(ok, "wrong-memory", lambda: f"snapshot at step {s.step}: {s.process_memory_mb} MB, readings during the call: {seen}")
    vals = {v for _, v in readings if v is not None}
    if len(vals) == 1:
        ctx.probe("constant")
        ctx.check(not [x for x in tr.detected_leaks if x.leak_type == "growing_memory"], "false-leak", lambda: f"leak reported on constant memory: {list(tr.detected_leaks)}", "race")
    for o in R.hist:
        if o["kind"] == "summary" and o["exc"] is None and "session" in o["res"]:
            d = o["res"]["session"]["duration_seconds"]
            ctx.check(-1e-9 <= d <= o["t1"] - t_created + 1e-6, "wrong-session-duration", lambda: f"{d} s, at most {o['t1'] - t_created} s have passed")

    steps = [s.step for s in tr.snapshots]
    ctx.check(steps == sorted(set(steps)), "wrong-order", lambda: f"steps {steps}")
    final = (tr.step_count, tuple((s.step, key(s)) for s in tr.snapshots))
    ctx.nontrivial = bool(snaps)
    ctx.log("snapshots", final)
    R.log_history(lambda o: "")

    ops = []
    for o in R.hist:
        if o["kind"] in ("snap", "summary", "module", "reset"):
            e = {"kind": o["kind"], "inv": o["inv"], "ret": o["ret"], "o": o}
            if o["kind"] == "snap":
                e["may"] = flags(R.hist, o)
            ops.append(e)
    ops.append({"kind": "final", "inv": R.now(), "ret": R.now(), "got": final})
    mx, ivl = sc["max"], sc["interval"]
    if len(snaps) > mx:
        ctx.probe("overflow")

    def values(sn, mod=None):
        out = []
        for _, what, m, mb in sn:
            if mod is None or m == mod:
                out.append(mb)
        return out

    def step(state, e):
        count, sn = state
        k = e["kind"]
        o = e["o"] if "o" in e else None
        if k == "snap":
            can, skip = e["may"]
            out = []
            if skip and o["res"] in (None, "?"):
                out.append(state)
            if can:
                c = count + 1
                takes = o["force"] or c % ivl == 0
                if not takes:
                    if o["res"] in (None, "?"):
                        out.append((c, sn))
                elif o["res"] == "?" or (o["res"] is not None and o["res"].step == c and key(o["res"]) == o["what"]):
                    mb = o["res"].process_memory_mb if o["res"] != "?" else None
                    out.append((c, (sn + ((c, o["what"], o["mod"], mb),))[-mx:]))
            return out
        if k == "reset":
            return [(0, ())]
        if k == "summary":
            r = o["res"]
            if not sn:
                return [state] if "error" in r else []
            if "error" in r or r["session"]["total_snapshots"] != len(sn) or r["session"]["total_steps"] != count:
                return []
            v = values(sn)
            if None not in v:
                st = r["statistics"]
                for name, w in (("peak_memory_mb", max(v)), ("min_memory_mb", min(v)), ("avg_memory_mb", sum(v) / len(v)), ("total_growth_mb", v[-1] - v[0])):
                    if abs(st[name] - w) > 1e-6:
                        return []
            what = sn[-1][1]
            want = sizes[what] if not isinstance(what, tuple) else (0, 0, 0)
            cu = r["current_usage"]
            if tuple(round(cu[n] * MB) for n in ("state_variables_mb", "parameters_mb", "buffers_mb")) != want:
                return []
            return [state]
        if k == "module":
            r = o["res"]
            v = values(sn, o["mod"])
            if not v:
                return [state] if "error" in r else []
            if "error" in r or r["snapshots_count"] != len(v):
                return []
            if None not in v:
                mu = r["memory_usage"]
                for name, w in (("current_mb", v[-1]), ("peak_mb", max(v)), ("avg_mb", sum(v) / len(v)), ("growth_mb", v[-1] - v[0])):
                    if abs(mu[name] - w) > 1e-6:
                        return []
            return [state]
        return [state] if e["got"] == (count, tuple((a, b) for a, b, _, _ in sn)) else []

    try:
        ok = linearize(ops, (0, ()), step)
    except Budget:
        ctx.probe("search-cut")
        return
    if ok is None:
        ctx.violate(
            "not-linearizable",
            "no order of the snapshots, resets and reads explains the results: "
            + "; ".join(f"{e['kind']}{[e['inv'], e['ret']]} {e['o'].get('what', '') if 'o' in e else e['got']}" for e in ops),
        )
