"""C13 - the profiler loses nothing and adds up under any thread interleaving."""

import json
import statistics

RUNS = {"quick": 4000, "thorough": 60000}
SEARCH = "schedules of 1-4 threads at line and bytecode granularity, operation mixes, clock jumps, unreadable metrics and failing profiled code"
RULE = (
    "One run lets 1-4 simulated threads profile code (context managers, the decorator, direct records), read summaries, "
    "results, reports and recommendations, reset, switch the profiler on and off, while the seeded scheduler preempts them "
    "anywhere in the profiler and the clock, process metrics and profiled code misbehave. The recorded history must be "
    "linearizable against a list of records with reset; every result must add up from its own records, durations lie within "
    "what simulated time allows, and results already returned never change. Non-trivial: a read after at least two records."
)
STATE_MEASURE = "distinct preemption sites (file, function, line or instruction) in wax, and distinct orders of operation begins and ends"
REAL = ["wax.flax.debug.profiler", "Python threads (scheduled one at a time)"]
STUB = ["clock (wall and monotonic)", "threading locks", "psutil process metrics", "the profiled model (a function that sleeps, fails or returns arrays)"]
ASSUMPTIONS = ["threads switch only between bytecodes or lines of wax code, at locks, sleeps and operation boundaries", "psutil reports failures as psutil.Error or OSError"]
PROBES = ["context", "decorator", "record", "raise", "reset", "disable", "overflow", "finalize", "module-summary", "clock-jump-back", "metrics-fail", "concurrent-reset", "bottleneck", "nested", "shared-context", "single"]
SHRINK_LISTS = ["threads", "threads.*", "sched.decisions"]
SHRINK_INTS = []

MODS = ["a", "ab", "A"]  # names that contain each other


def gen(rng, idx, tier):
    from sim.race import schedule

    n = rng.choice([1, 2, 2, 3, 3, 4])
    style = rng.choice(["mix", "mix", "mix", "records", "resets", "switch", "faults"])
    kinds = ["ctx", "ctx", "wrap", "rec", "rec", "final", "module", "report", "recs", "leaks"]
    if style != "records":
        kinds += ["reset"] * (3 if style == "resets" else 1)
    threads = []
    total = rng.randrange(3, 13)
    for t in range(n):
        ops = []
        for _ in range(max(1, total // n + rng.randrange(-1, 2))):
            k = rng.choice(kinds)
            if style in ("faults", "mix") and rng.random() < (0.4 if style == "faults" else 0.1):
                k = rng.choice(["jump", "rss", "fail", "heal"])
            if style == "switch" and t == 0 and rng.random() < 0.4:
                k = rng.choice(["off", "on"])
            op = {"k": k, "m": rng.choice(MODS), "d": rng.choice([0.0, 0.0, 0.001, 0.02, 0.3])}
            if k in ("ctx", "wrap"):
                op["raise"] = rng.random() < 0.2
                op["jit"] = rng.random() < 0.3
                op["nest"] = k == "ctx" and rng.random() < 0.25
                op["inner"] = rng.choice([None, None, None, "jump-", "jump+", "reset", "rss"]) if style != "records" else None
            if k == "jump":
                op["by"] = rng.choice([-86400.0, -5.0, -0.01, 0.01, 3600.0])
            if k == "rss":
                op["mb"] = rng.choice([1, 50, 100, 200, 1000])
            ops.append(op)
        threads.append(ops)
    threads[rng.randrange(n)].append({"k": "final", "m": "a", "d": 0.0})
    return {
        "threads": threads,
        "max": rng.choice([1, 2, 3, 5, 100, 100]),
        "threshold": rng.choice([0.5, 10.0, 100.0]),
        "mem": rng.random() < 0.8,
        "cpu": rng.random() < 0.8,
        "detail": rng.random() < 0.7,
        "fail": rng.choice(["psutil", "os"]),
        "shared": rng.random() < 0.15,
        "sched": schedule(rng),
    }


def run(sc, ctx):
    import jax.numpy as jnp
    import psutil
    from wax.flax.debug import profiler as P

    from sim.lin import Budget, linearize
    from sim.race import Race

    R = Race(ctx, sc)
    env = R.env
    err = psutil.AccessDenied(1) if sc["fail"] == "psutil" else OSError("no metrics")
    t_created = R.mono()
    prof = P.StreamingProfiler(enable_memory_tracking=sc["mem"], enable_cpu_tracking=sc["cpu"], bottleneck_threshold_ms=sc["threshold"], max_history=sc["max"])
    ids = iter(range(1, 10_000))
    spans = {}  # record id -> (least, most) duration or exact
    kept = []  # results with a digest taken when they were returned
    switched = any(o["k"] == "off" for th in sc["threads"] for o in th)

    class Boom(Exception):
        pass

    def inner(kind):
        if kind == "jump-":
            env.clock.jump(-100.0)
            ctx.probe("clock-jump-back")
        elif kind == "jump+":
            env.clock.jump(50.0)
        elif kind == "reset":
            R.op("reset", prof.reset)
            ctx.probe("reset")
        elif kind == "rss":
            env.proc.rss += 10 * 2**20

    sizes = {}

    def model_apply(params, state, rng, x):
        op = params
        R.sleep(op["d"])
        inner(op["inner"])
        if op["raise"]:
            raise Boom
        return x, state

    class Model:
        init = staticmethod(lambda rng, x: ({}, {}))
        apply = staticmethod(model_apply)
        __name__ = "model"

    wrapped = {m: P.profile_streaming(prof, m, enable_detailed_tracking=sc["detail"])(Model) for m in MODS}
    shared_ctx = prof.start_step("a") if sc["shared"] else None

    def do_ctx(op, depth=0):
        i = next(ids)
        c = prof.start_step(f"c{i}")
        t_in = R.mono()
        c.__enter__()
        body0 = R.mono()
        R.sleep(op["d"])
        if op["nest"] and depth == 0:
            ctx.probe("nested")
            do_ctx(dict(op, nest=False, inner=None), 1)
        inner(op["inner"])
        if op["jit"]:
            c.set_jit_compilation(True)
        body1 = R.mono()
        exc = Boom() if op["raise"] else None
        o = R.op("record", lambda: c.__exit__(type(exc) if exc else None, exc, None), id=i, mod=f"c{i}")
        if o["exc"] is not None:
            ctx.violate("record-failed", f"leaving a profiled block raised {o['exc']!r}", "context")
        elif exc is not None:
            ctx.probe("raise")
            ctx.fault("profiled-code-raises")
            ctx.check(not o["res"], "exception-swallowed", "the exception of profiled code is suppressed")
        spans[i] = (body1 - body0, o["t1"] - t_in, bool(op["jit"]))
        ctx.probe("context")

    def do_wrap(op):
        i = next(ids)
        # the size of the input tells which execution a record is about
        x = jnp.zeros((i,), jnp.int8)
        sizes[i] = i
        t_in = R.mono()
        rec = R.op("record", lambda: wrapped[op["m"]].apply(op, {}, None, x), id=i, mod=op["m"], wrap=True)
        if op["raise"]:
            ctx.probe("raise")
            ctx.fault("profiled-code-raises")
            ctx.check(isinstance(rec["exc"], Boom), "wrong-exception", lambda: f"the profiled code raised Boom, the caller got {rec['exc']!r}", "decorator")
        elif rec["exc"] is not None:
            ctx.violate("record-failed", f"the profiled function raised {rec['exc']!r}", "decorator")
        else:
            ctx.check(rec["res"][0] is x, "wrong-result", "the profiled function's result is changed")
        spans[i] = (op["d"], rec["t1"] - t_in, False)
        ctx.probe("decorator")

    def do(op):
        k = op["k"]
        if k == "ctx":
            do_ctx(op)
        elif k == "wrap":
            do_wrap(op)
        elif k == "rec":
            i = next(ids)
            dt = i * 1e-3
            o = R.op("record", lambda: prof.record_metrics(op["m"], dt, jit_compilation=False), id=i, mod=op["m"], direct=True)
            spans[i] = (dt, dt, False)
            ctx.probe("record")
            if o["exc"] is not None:
                ctx.violate("record-failed", f"record_metrics raised {o['exc']!r}", "direct")
        elif k == "final":
            o = R.op("final", prof.finalize)
            ctx.probe("finalize")
            if o["exc"] is not None:
                ctx.violate("read-failed", f"finalize raised {o['exc']!r}", "finalize")
            else:
                kept.append((o, snapshot(o["res"])))
        elif k == "module":
            o = R.op("module", lambda: prof.get_module_summary(op["m"]), mod=op["m"])
            ctx.probe("module-summary")
            if o["exc"] is not None:
                ctx.violate("read-failed", f"get_module_summary raised {o['exc']!r}", "module")
        elif k == "report":
            o = R.op("final", prof.finalize)
            if o["exc"] is None:
                kept.append((o, snapshot(o["res"])))
                with ctx.guard("read-failed", "report"):
                    text = P.create_performance_report(o["res"])
                ctx.check(isinstance(text, str) and text, "read-failed", "empty report", "report")
        elif k == "recs":
            o = R.op("recs", prof.generate_optimization_recommendations)
            ctx.check(o["exc"] is None, "read-failed", lambda: f"recommendations raised {o['exc']!r}", "recommendations")
        elif k == "leaks":
            o = R.op("leaks", prof.detect_memory_leaks)
            ctx.check(o["exc"] is None, "read-failed", lambda: f"leak detection raised {o['exc']!r}", "leaks")
        elif k == "reset":
            o = R.op("reset", prof.reset)
            ctx.probe("reset")
            ctx.check(o["exc"] is None, "reset-failed", lambda: f"reset raised {o['exc']!r}")
        elif k == "off":
            R.op("off", prof.disable)
            ctx.probe("disable")
        elif k == "on":
            R.op("on", prof.enable)
        elif k == "jump":
            env.clock.jump(op["by"])
            if op["by"] < 0:
                ctx.probe("clock-jump-back")
        elif k == "rss":
            env.proc.rss = op["mb"] * 2**20
            ctx.fault("memory-change")
        elif k == "fail":
            env.proc.fail = err
            ctx.probe("metrics-fail")
            ctx.fault("metrics-unreadable")
        elif k == "heal":
            env.proc.fail = None

    def thread(ops):
        def body():
            for op in ops:
                do(op)

        return body

    if len(sc["threads"]) == 1:
        ctx.probe("single")
    if shared_ctx is not None:
        ctx.probe("shared-context")
    if not R.run([thread(ops) for ops in sc["threads"]]):
        return
    last = R.op("final", prof.finalize)
    if last["exc"] is not None:
        ctx.fail("read-failed", f"finalize raised {last['exc']!r}", "finalize")
    kept.append((last, snapshot(last["res"])))
    ctx.nontrivial = sum(o["kind"] == "record" for o in R.hist) >= 2

    # --- the execution times per module are those of the newest records
    for name, times in list(getattr(prof, "module_stats", {}).items()):
        times = list(times)
        ctx.check(len(times) <= sc["max"], "history-too-long", lambda: f"{len(times)} execution times of {name}, limit {sc['max']}", "module")
        own = [m.execution_time for m in last["res"].metrics if m.module_name == name]
        ctx.check(times[len(times) - len(own) :] == own, "summary-wrong", lambda: f"execution times of {name}: {times}, its records: {own}", "module-times")

    # --- the summary of a module adds up from its records
    for name in MODS:
        own = [m for m in last["res"].metrics if m.module_name == name]
        with ctx.guard("read-failed", "module"):
            got = prof.get_module_summary(name)
        if not own:
            ctx.check("error" in got, "summary-wrong", lambda: f"{got} of a module without records", "module-empty")
            continue
        ts, mem = [m.execution_time * 1000 for m in own], [m.memory_usage for m in own]
        want = {
            "total_invocations": len(own), "total_time_ms": sum(ts), "avg_time_ms": sum(ts) / len(ts), "max_time_ms": max(ts), "min_time_ms": min(ts),
            "avg_memory_mb": sum(mem) / len(mem), "peak_memory_mb": max(mem), "jit_compilations": sum(bool(m.jit_compilation) for m in own),
        }
        for k, v in want.items():
            ctx.check(abs(got[k] - v) <= 1e-9 * max(1.0, abs(v)), "summary-wrong", lambda: f"{k} of {name} is {got[k]}, its records give {v}", "module-" + k)

    # --- results that were returned do not change afterwards
    for o, before in kept:
        now = snapshot(o["res"])
        if now != before:
            ctx.violate("result-changed", f"a returned result changed later: {before[:300]} -> {now[:300]}")

    def rid(m):
        """Which execution a record is about."""
        if m.module_name.startswith("c") and m.module_name[1:].isdigit():
            return int(m.module_name[1:])
        if m.input_size in sizes and sizes[m.input_size]:
            return m.input_size
        return None

    wraps = {o["id"]: o for o in R.hist if o.get("wrap")}
    directs = {o["id"]: o for o in R.hist if o.get("direct")}

    def ident(m):
        i = rid(m)
        if i in wraps and (wraps[i]["exc"] is not None or not sc["detail"]):
            return ("w", m.module_name)
        if i is not None:
            return i
        k = round(m.execution_time / 1e-3)
        if k in directs and m.execution_time == k * 1e-3 and directs[k]["mod"] == m.module_name:
            return k
        return ("w", m.module_name)  # a decorator record without detail

    # --- every result adds up from its own records
    for o, _ in kept:
        audit(ctx, P, sc, o, ident, spans, wraps, directs, t_created, R, switched)

    # --- the history as a whole is linearizable
    ctx.log("records", [ident(m) for m in last["res"].metrics], last["res"].total_steps)
    R.log_history(lambda o: "" if o["res"] is None else o["res"].total_steps if o["kind"] == "final" else "")
    ops = []
    for o in R.hist:
        if o["kind"] in ("record", "reset", "on", "off", "final", "module"):
            e = {"kind": o["kind"], "inv": o["inv"], "ret": o["ret"]}
            if o["kind"] == "record":
                i = o["id"]
                hidden = o.get("wrap") and (not sc["detail"] or o["exc"] is not None)
                e["what"] = ("w", o["mod"]) if hidden else i
                e["mod"] = o["mod"]
                e["may"] = flags(R.hist, o)
            elif o["kind"] == "final":
                e["got"] = (tuple(ident(m) for m in o["res"].metrics), o["res"].total_steps)
            elif o["kind"] == "module":
                e["mod"] = o["mod"]
                e["got"] = o["res"].get("total_invocations", 0)
            ops.append(e)
    mx = sc["max"]

    def step(state, e):
        recs, count = state
        k = e["kind"]
        if k == "record":
            can, skip = e["may"]
            out = []
            if can:
                out.append(((recs + ((e["what"], e["mod"]),))[-mx:], count + 1))
            if skip:
                out.append(state)
            return out
        if k == "reset":
            return [((), 0)]
        if k == "final":
            return [state] if (tuple(w for w, _ in recs), count) == e["got"] else []
        if k == "module":
            return [state] if sum(m == e["mod"] for _, m in recs) == e["got"] else []
        return [state]

    if any(o["kind"] == "record" for o in R.hist) and len(R.hist) > mx:
        ctx.probe("overflow")
    if any(a["kind"] == "reset" and b["kind"] == "record" and a["inv"] < b["ret"] and b["inv"] < a["ret"] for a in R.hist for b in R.hist):
        ctx.probe("concurrent-reset")
    try:
        ok = linearize(ops, ((), 0), step)
    except Budget:
        ctx.probe("search-cut")
        return
    if ok is None:
        ctx.violate(
            "not-linearizable",
            "no order of the executions, resets and reads explains the results: "
            + "; ".join(f"{e['kind']}{[e['inv'], e['ret']]} {e.get('what', '')} {e.get('got', '')}" for e in ops),
        )


def flags(hist, o):
    """(may the profiler have been on, may it have been off) during operation o."""
    on = off = False
    sw = sorted((x for x in hist if x["kind"] in ("on", "off")), key=lambda x: x["inv"])
    cur = "on"
    for x in sw:  # one thread only switches, so these are ordered
        if x["ret"] < o["inv"]:
            cur = x["kind"]
    on, off = cur == "on", cur == "off"
    for x in sw:
        if x["ret"] >= o["inv"] and x["inv"] <= o["ret"]:
            on, off = on or x["kind"] == "on", off or x["kind"] == "off"
    return on, off


def snapshot(r):
    return json.dumps(
        {
            "n": r.total_steps,
            "d": r.session_duration,
            "m": [[m.step, m.module_name, m.execution_time, m.memory_usage, m.memory_delta, m.input_size, m.output_size, m.timestamp] for m in r.metrics],
            "e": r.execution_stats,
            "mem": r.memory_stats,
            "b": r.bottlenecks,
            "o": r.optimization_recommendations,
        },
        default=str,
    )


def close(a, b):
    return abs(a - b) <= 1e-9 + 1e-9 * max(abs(a), abs(b))


def audit(ctx, P, sc, o, ident, spans, wraps, directs, t_created, R, switched):
    r = o["res"]
    ms = r.metrics
    ctx.check(len(ms) <= sc["max"], "history-overflow", lambda: f"{len(ms)} records kept, limit {sc['max']}")
    steps = [m.step for m in ms]
    want = list(range(r.total_steps - len(ms) + 1, r.total_steps + 1))
    ctx.check(steps == want, "steps-not-contiguous", lambda: f"steps {steps}, total {r.total_steps}")
    ctx.check(len(ms) == min(sc["max"], r.total_steps), "records-lost", lambda: f"{len(ms)} records kept of {r.total_steps}, limit {sc['max']}")
    for m in ms:
        i = ident(m)
        if m.execution_time < 0:
            ctx.violate("negative-duration", f"{m.module_name} step {m.step}: {m.execution_time}")
        lo_hi = spans.get(i) if not isinstance(i, tuple) else None
        if lo_hi is not None and not (lo_hi[0] - 1e-6 <= m.execution_time <= lo_hi[1] + 1e-6):
            ctx.violate("wrong-duration", f"{m.module_name} step {m.step}: {m.execution_time}, the block took between {lo_hi[0]} and {lo_hi[1]}")
        if lo_hi is not None and not isinstance(i, tuple) and i not in wraps and i not in directs:
            ctx.check(m.jit_compilation == lo_hi[2], "wrong-flag", lambda: f"{m.module_name}: jit_compilation {m.jit_compilation}")
        if isinstance(i, tuple):
            ok = any(w["mod"] == m.module_name and (w["exc"] is not None or not sc["detail"]) and spans.get(k, (0, 1e18))[0] - 1e-6 <= m.execution_time <= spans.get(k, (0, 1e18))[1] + 1e-6 for k, w in wraps.items())
            ctx.check(ok, "invented-record", lambda: f"record {m.module_name} step {m.step} ({m.execution_time} s) belongs to no execution")
    if not ms:
        with ctx.guard("read-failed", "summary"):
            r.get_summary()
        return
    ex, mem = [m.execution_time for m in ms], [m.memory_usage for m in ms]
    if sc["mem"] is False:
        ctx.check(all(v == 0 for v in mem), "invented-memory", "memory readings without memory tracking")
    for what, got, vals in (("execution", r.execution_stats, ex), ("memory", r.memory_stats, mem)):
        want = {"mean": statistics.mean(vals), "median": statistics.median(vals), "min": min(vals), "max": max(vals), "std_dev": statistics.stdev(vals) if len(vals) > 1 else 0}
        for k, v in want.items():
            ctx.check(k in got and close(got[k], v), "does-not-add-up", lambda: f"{what} {k}: {got.get(k)}, the records give {v}", f"{what}-{k}")
    over = [m.step for m in ms if m.execution_time * 1000 > sc["threshold"]]
    bsteps = [b["step"] for b in r.bottlenecks]
    if over:
        ctx.probe("bottleneck")
    ctx.check(bsteps == sorted(set(bsteps)), "bottlenecks-wrong", lambda: f"bottleneck steps {bsteps}")
    ctx.check([s for s in bsteps if s >= steps[0]] == over, "bottlenecks-wrong", lambda: f"bottlenecks at {bsteps}, slow records at {over}, records {steps}")
    ctx.check(len(bsteps) <= sc["max"], "history-overflow", lambda: f"{len(bsteps)} bottlenecks kept, limit {sc['max']}", "bottlenecks")
    by = {m.step: m for m in ms}
    for b in r.bottlenecks:
        m = by.get(b["step"])
        if m is not None:
            ctx.check(b["module"] == m.module_name and close(b["execution_time_ms"], m.execution_time * 1000), "bottlenecks-wrong", lambda: f"{b} for {m}")
    with ctx.guard("read-failed", "summary"):
        s = r.get_summary()
    want = {
        ("session", "total_steps"): r.total_steps,
        ("session", "avg_throughput"): r.total_steps / r.session_duration if r.session_duration > 0 else 0,
        ("execution", "total_time"): sum(ex),
        ("execution", "avg_time_ms"): statistics.mean(ex) * 1000,
        ("execution", "median_time_ms"): statistics.median(ex) * 1000,
        ("execution", "max_time_ms"): max(ex) * 1000,
        ("execution", "min_time_ms"): min(ex) * 1000,
        ("execution", "std_dev_ms"): statistics.stdev(ex) * 1000 if len(ex) > 1 else 0,
        ("memory", "peak_usage_mb"): max(mem),
        ("memory", "avg_usage_mb"): statistics.mean(mem),
        ("memory", "total_allocated"): sum(m.memory_delta for m in ms if m.memory_delta > 0),
    }
    for (a, b), v in want.items():
        ctx.check(close(s[a][b], v), "does-not-add-up", lambda: f"summary {a}.{b}: {s[a][b]}, the records give {v}", f"summary-{b}")
    ctx.check(s["jit_compilations"] == sum(m.jit_compilation for m in ms), "does-not-add-up", "jit_compilations")
    ctx.check(s["bottlenecks"] == len(r.bottlenecks), "does-not-add-up", "bottlenecks")
    ctx.check(-1e-9 <= r.session_duration <= o["t1"] - t_created + 1e-6, "wrong-session-duration", lambda: f"{r.session_duration} s, at most {o['t1'] - t_created} s have passed")
    if not any(x["kind"] == "reset" for x in R.hist):
        ctx.check(r.session_duration >= o["t0"] - t_created - 0.01, "wrong-session-duration", lambda: f"{r.session_duration} s, but {o['t0'] - t_created} s have passed")
    # a reset profiler starts like a fresh one
    if ms[0].step == 1 and sc["mem"]:
        ctx.check(close(ms[0].memory_delta, first_delta(P, R, ms[0].memory_usage)), "reset-incomplete", lambda: f"first record: memory delta {ms[0].memory_delta} at {ms[0].memory_usage} MB")
    # deltas are the changes between neighbouring records
    for a, b in zip(ms, ms[1:]):
        ctx.check(close(b.memory_delta, b.memory_usage - a.memory_usage) or not sc["mem"], "does-not-add-up", lambda: f"step {b.step}: delta {b.memory_delta}, usage {a.memory_usage} -> {b.memory_usage}", "memory-delta")


def first_delta(P, R, usage):
    """Memory delta of the first record of a fresh profiler at this memory usage."""
    proc = R.env.proc
    keep = proc.rss, proc.fail
    proc.rss, proc.fail = usage * 2**20, None
    try:
        p = P.StreamingProfiler()
        p.record_metrics("m", 0.001)
        return p.finalize().metrics[0].memory_delta
    finally:
        proc.rss, proc.fail = keep
