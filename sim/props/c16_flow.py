"""C16 - the data-flow tracker and dashboard account for every recorded value under concurrency."""

import numpy as np

RUNS = {"quick": 12000, "thorough": 60000}
SEARCH = "schedules of 1-4 threads at line and bytecode granularity, operation mixes, bounded histories, wall-clock jumps and later mutation of recorded values"
RULE = (
    "One run lets 1-4 simulated threads record values, count steps, read histories, text plots and the dashboard's routes and "
    "clear the tracker (directly or through a dashboard), while the scheduler preempts them anywhere, wall clocks jump and recorded arrays are changed "
    "afterwards. The history must be linearizable against a list of points with a step counter; every point keeps its own "
    "module, type, shape, metadata and value; calls, metrics and alerts of the dashboard add up. Non-trivial: a read saw a point."
)
STATE_MEASURE = "distinct preemption sites (file, function, line or instruction) in wax, and distinct orders of operation begins and ends"
REAL = ["wax.flax.visualization.data_flow_visualizer (tracker, text plots)", "wax.flax.visualization.interactive_dashboard (recording and routes)", "streaming plots of jupyter_viz and bokeh_viz (updates)", "Python threads (scheduled one at a time)"]
STUB = ["clock (wall and monotonic)", "threading locks", "plotly and bokeh figures (not installed; plain records)", "flask and flask_socketio (not installed; routes and broadcasts are called by the simulator)"]
ASSUMPTIONS = ["metadata hold JSON values", "the track_* switches of the tracker are left at their defaults"]
PROBES = ["tracker", "dashboard", "mutated", "cleared", "overflow", "module-read", "unknown-module", "recent-read", "text", "clock-jump-back", "api-data", "api-perf", "api-alerts", "alert", "unregistered", "single", "clients", "jax-value", "plots"]
SHRINK_LISTS = ["threads", "threads.*", "sched.decisions"]
SHRINK_INTS = []

MODS = ["a", "ab", "A"]  # names that contain each other
TYPES = ["input", "output", "state"]


def gen(rng, idx, tier):
    from sim.race import schedule

    n = rng.choice([1, 2, 2, 3, 3, 4])
    style = rng.choice(["mix", "mix", "records", "clears", "steps", "first"])
    via = rng.choice(["tracker", "tracker", "tracker", "dashboard", "dashboard", "plots"])
    if via == "plots":
        threads = [[{"k": "upd", "plot": rng.choice(["plotly", "bokeh"]), "s": rng.choice("xxy"), "now": rng.random() < 0.2} for _ in range(rng.randrange(1, 5))] for _ in range(n)]
        return {"via": via, "style": "plots", "threads": threads, "max": rng.choice([1, 2, 3, 1000]), "clients": False, "sched": schedule(rng)}
    kinds = ["rec"] * 6 + ["module", "module", "recent", "recent", "text", "jump"]
    kinds += ["step"] * (5 if style == "steps" else 2)
    if style != "records":
        kinds += ["clear"] * (3 if style == "clears" else 1)
    if via == "dashboard":
        kinds += ["api_data", "api_perf", "api_perf", "api_alerts", "api_list", "unregistered"]
    if style == "first":
        kinds = ["rec"] * 6 + ["module", "step"] + (["api_perf"] if via == "dashboard" else [])
    total = rng.randrange(3, 14)
    threads = []
    for t in range(n):
        ops = []
        for _ in range(max(1, total // n + rng.randrange(-1, 2))):
            k = rng.choice(kinds)
            op = {"k": k}
            if k in ("rec", "module"):
                op["m"] = MODS[0] if style == "first" else rng.choice(MODS)
                op["t"] = rng.choice(TYPES)
            if k == "rec":
                op["v"] = rng.choice(["array", "array", "matrix", "scalar", "list", "dict", "jax", "none", "big"])
                op["mutate"] = rng.random() < 0.4
                if via == "dashboard":
                    op["ms"] = rng.choice([None, 1.0, 99.0, 101.0, 5000.0])
                    op["mb"] = rng.choice([None, None, 10.0, 2000.0])
            if k == "module":
                op["m"] = rng.choice(MODS[:2] + ["never"])
                op["t"] = rng.choice(TYPES + [None, None])
            if k == "recent":
                op["n"] = rng.choice([0, 1, 2, 3, 100, None])
            if k == "jump":
                op["by"] = rng.choice([-86400.0, -5.0, 3600.0])
            ops.append(op)
        threads.append(ops)
    return {"via": via, "style": style, "threads": threads, "max": rng.choice([1, 2, 3, 5, 1000, 1000]), "clients": rng.random() < 0.3, "sched": schedule(rng)}


def make_value(kind, i):
    """-> value, a function that changes it in place, and what it was."""
    if kind == "array":
        v = np.arange(3.0) + i
        return v, lambda: v.fill(-1.0), [i, i + 1, i + 2], (3,)
    if kind == "matrix":
        v = np.full((2, 2), float(i))
        return v, lambda: v.fill(-1.0), [[i, i], [i, i]], (2, 2)
    if kind == "big":
        v = np.full(12, float(i))
        return v, lambda: v.fill(-1.0), [i] * 12, (12,)
    if kind == "scalar":
        return float(i), lambda: None, float(i), ()
    if kind == "list":
        v = [i, i + 1]
        return v, lambda: v.append(-1), [i, i + 1], (2,)
    if kind == "dict":
        v = {"w": np.full(2, float(i)), "k": i}
        return v, lambda: (v.clear(), v.update(z=1)), {"w": [i, i], "k": i}, (2,)
    if kind == "jax":
        import jax.numpy as jnp

        return jnp.asarray(np.full(2, float(i), np.float32)), lambda: None, [i, i], (2,)
    return None, lambda: None, None, ()


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if hasattr(v, "tolist"):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def run_plots(sc, ctx):
    """Several threads feed the same streaming plots."""
    from wax.flax.visualization import bokeh_viz as B
    from wax.flax.visualization import jupyter_viz as J

    from sim import stubs
    from sim.lin import linearize
    from sim.race import Race

    R = Race(ctx, sc)
    ctx.probe("plots")
    pv = J.StreamingDataVisualizer(J.JupyterVizConfig(max_history_points=sc["max"]))
    fig = pv.create_streaming_plot()
    bv = B.BokehStreamingPlot(B.BokehVizConfig(max_points=sc["max"]))
    for s in "xy":
        pv.add_stream(fig, s)
        bv.data_sources[s] = stubs.Source({"x": [], "y": []})
    ids = iter(range(1, 10_000))

    def body(ops):
        def f():
            for op in ops:
                i = next(ids)
                if op["plot"] == "plotly":
                    o = R.op("upd", lambda: pv.update_stream(fig, op["s"], i, None if op["now"] else i * 10.0), id=i, key=("plotly", op["s"]), now=op["now"])
                else:
                    o = R.op("upd", lambda: bv.update_stream(op["s"], i * 10.0, i), id=i, key=("bokeh", op["s"]), now=False)
                ctx.check(o["exc"] is None, "record-failed", lambda: f"update_stream raised {o['exc']!r}", "plots")

        return f

    if not R.run([body(ops) for ops in sc["threads"]]):
        return
    ctx.nontrivial = True
    for plot in ("plotly", "bokeh"):
        for s in "xy":
            if plot == "plotly":
                t = next(t for t in fig.data if t.name == s)
                x, y = list(t.x), list(t.y)
            else:
                x, y = bv.data_sources[s].data["x"], bv.data_sources[s].data["y"]
            mine = [o for o in R.hist if o["key"] == (plot, s)]
            times = {o["id"]: None if o["now"] else o["id"] * 10.0 for o in mine}
            ctx.log(plot, s, y)
            ctx.check(len(x) == len(y) and all(i in times and times[i] in (None, t) for t, i in zip(x, y)), "wrong-point", lambda: f"{plot} plot shows {list(zip(x, y))}, updates {times}", "plot")
            if len(mine) > sc["max"]:
                ctx.probe("overflow")
            ops = [{"kind": "upd", "inv": o["inv"], "ret": o["ret"], "id": o["id"]} for o in mine]
            ops.append({"kind": "final", "inv": R.now(), "ret": R.now()})
            ok = linearize(ops, (), lambda st, e: [st + (e["id"],)] if e["kind"] == "upd" else [st] if list(st[-sc["max"]:]) == list(y) else [])
            ctx.check(ok is not None, "not-linearizable", lambda: f"{plot} plot shows {y}, updates {[(e['id'], e['inv'], e['ret']) for e in ops if e['kind'] == 'upd']}, limit {sc['max']}")


def run(sc, ctx):
    from sim import stubs

    stubs.install()
    if sc["via"] == "plots":
        return run_plots(sc, ctx)
    import warnings

    from wax.flax.visualization import data_flow_visualizer as V
    from wax.flax.visualization import interactive_dashboard as D

    from sim.lin import Budget, linearize
    from sim.race import Race

    R = Race(ctx, sc)
    env = R.env
    t_created = R.mono()
    dash = None
    ctx.probe(sc["via"])
    if len(sc["threads"]) == 1:
        ctx.probe("single")
    if sc["via"] == "dashboard":
        dash = D.InteractiveDashboard(D.DashboardConfig(max_data_points=sc["max"]))
        dash.register_pipeline("p", lambda x: x, np.zeros(2))
        tr = dash.state.data_trackers["p"]
        if sc["clients"]:
            dash.state.connected_clients.add("c")
            ctx.probe("clients")
        routes = dash.app.routes
        viz = None
    else:
        tr = V.DataFlowTracker(max_history=sc["max"])
    viz = V.DataFlowVisualizer(backend="text")
    viz.attach_tracker(tr)
    ids = iter(range(1, 10_000))
    recs = {}

    def do(op):
        k = op["k"]
        if k == "rec":
            i = next(ids)
            v, mutate, was, shape = make_value(op["v"], i)
            meta = {"id": i}
            if dash:
                meta |= {a: b for a, b in (("execution_time_ms", op["ms"]), ("memory_usage_mb", op["mb"])) if b is not None}
            recs[i] = {"mod": op["m"], "type": op["t"], "was": was, "shape": shape, "meta": dict(meta), "op": op}
            if dash:
                o = R.op("rec", lambda: dash.record_pipeline_data("p", op["m"], op["t"], v, meta), id=i)
            else:
                o = R.op("rec", lambda: tr.record_data(op["m"], op["t"], v, meta), id=i)
            recs[i]["o"] = o
            if op["v"] == "jax":
                ctx.probe("jax-value")
            ctx.check(o["exc"] is None, "record-failed", lambda: f"recording raised {o['exc']!r}")
            if op["mutate"]:
                mutate()
                meta["changed"] = True
                ctx.probe("mutated")
                ctx.fault("value-mutated-later")
        elif k == "step":
            o = R.op("step", (lambda: dash.step_pipeline("p")) if dash else tr.step)
            ctx.check(o["exc"] is None, "record-failed", lambda: f"stepping raised {o['exc']!r}", "step")
        elif k == "module":
            o = R.op("module", lambda: tr.get_module_history(op["m"], op["t"]), mod=op["m"], type=op["t"])
            ctx.probe("unknown-module" if op["m"] == "never" else "module-read")
            ctx.check(o["exc"] is None, "read-failed", lambda: f"get_module_history raised {o['exc']!r}", "module")
        elif k == "recent":
            o = R.op("recent", tr.get_recent_data if op["n"] is None else lambda: tr.get_recent_data(op["n"]), n=100 if op["n"] is None else op["n"])
            ctx.probe("recent-read")
            ctx.check(o["exc"] is None, "read-failed", lambda: f"get_recent_data raised {o['exc']!r}", "recent")
        elif k == "text":
            o = R.op("text", viz.create_streaming_plot)
            ctx.probe("text")
            ctx.check(o["exc"] is None, "read-failed", lambda: f"the text plot raised {o['exc']!r}", "text")
        elif k == "clear":
            R.op("clear", tr.clear_history)
            ctx.probe("cleared")
        elif k == "jump":
            env.clock.jump(op["by"])
            if op["by"] < 0:
                ctx.probe("clock-jump-back")
        elif k == "unregistered":
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                o = R.op("unregistered", lambda: dash.record_pipeline_data("q", "a", "input", 1.0, {"id": 0, "execution_time_ms": 1e6}))
            ctx.probe("unregistered")
            R.op("unregistered", lambda: dash.step_pipeline("q"))
            ctx.check(o["exc"] is None, "record-failed", lambda: f"recording for an unknown pipeline raised {o['exc']!r}", "unregistered")
        else:
            route = {"api_data": "/api/pipeline/<pipeline_id>/data", "api_perf": "/api/performance", "api_alerts": "/api/alerts", "api_list": "/api/pipelines"}[k]
            o = R.op(k, (lambda: routes[route]("p")) if k == "api_data" else routes[route])
            ctx.probe(k.replace("_", "-"))
            ctx.check(o["exc"] is None, "read-failed", lambda: f"{route} raised {o['exc']!r}", k)

    def thread(ops):
        def body():
            for op in ops:
                do(op)

        return body

    if not R.run([thread(ops) for ops in sc["threads"]]):
        return
    if dash:
        for k in ("api_data", "api_perf", "api_alerts", "api_list"):
            do({"k": k})
    hist = R.hist

    # --- every point seen is the one that was recorded
    cleared = any(o["kind"] == "clear" for o in hist)

    def check_point(dp):
        i = dp.metadata.get("id")
        if i not in recs:
            ctx.fail("invented-point", f"{dp}")
        r = recs[i]
        ctx.check((dp.module_name, dp.data_type) == (r["mod"], r["type"]), "wrong-point", lambda: f"point {i}: {dp.module_name}, {dp.data_type}; recorded {r['mod']}, {r['type']}", "name")
        ctx.check(tuple(dp.shape) == r["shape"], "wrong-point", lambda: f"point {i}: shape {dp.shape}, recorded {r['shape']}", "shape")
        ctx.check(plain(dp.value) == r["was"], "wrong-value", lambda: f"point {i}: value {plain(dp.value)}, recorded {r['was']}")
        ctx.check(dp.metadata == r["meta"], "wrong-point", lambda: f"point {i}: metadata {dp.metadata}, recorded {r['meta']}", "metadata")
        o = r["o"]
        ctx.check(-1e-9 <= dp.timestamp <= o["t1"] - t_created + 1e-6, "wrong-time", lambda: f"point {i}: time {dp.timestamp}, at most {o['t1'] - t_created} s have passed", "late")
        if not cleared:
            ctx.check(dp.timestamp >= o["t0"] - t_created - 1e-3, "wrong-time", lambda: f"point {i}: time {dp.timestamp}, recorded after {o['t0'] - t_created} s", "early")
        return i

    def check_list(points):
        out = [check_point(dp) for dp in points]
        if not cleared:
            ts = [dp.timestamp for dp in points]
            ctx.check(ts == sorted(ts), "wrong-time", lambda: f"times run backwards: {ts}", "order")
            st = [dp.step for dp in points]
            ctx.check(st == sorted(st), "wrong-order", lambda: f"steps {st}")
        return tuple(out)

    ops, n_seen = [], 0
    for o in hist:
        e = {"kind": o["kind"], "inv": o["inv"], "ret": o["ret"], "o": o}
        if o["exc"] is not None:
            continue
        if o["kind"] in ("module", "recent"):
            e["got"] = check_list(o["res"])
            e["steps"] = tuple(dp.step for dp in o["res"])
            n_seen += len(e["got"])
        elif o["kind"] == "api_data":
            d = o["res"]["data"]
            e["got"] = tuple(x["metadata"]["id"] for x in d)
            n_seen += len(d)
            for x in d:
                r = recs.get(x["metadata"]["id"])
                if r is None:
                    ctx.fail("invented-point", f"{x}")
                v = {"type": "array", "shape": [12], "dtype": "float64", "min": x["metadata"]["id"], "max": x["metadata"]["id"], "mean": x["metadata"]["id"]} if r["op"]["v"] == "big" else {"type": "NoneType", "str": "None"} if r["was"] is None else r["was"]
                ctx.check((x["module_name"], x["data_type"], tuple(x["shape"]), x["metadata"]) == (r["mod"], r["type"], r["shape"], r["meta"]), "wrong-point", lambda: f"{x}, recorded {r}", "api")
                ctx.check(x["value"] == v, "wrong-value", lambda: f"{x}, recorded {v}", "api")
        elif o["kind"] == "text":
            t = o["res"]
            if "No data points" in t:
                e["got"] = 0
            else:
                e["got"] = int(t.split("Recent points: ")[1].split()[0])
        elif o["kind"] not in ("rec", "step", "clear"):
            continue
        ops.append(e)
    final = (tr.step_count, check_list(tr.data_history), tuple((m, check_list(q)) for m, q in sorted(tr.module_data.items())))
    n_seen += len(final[1])
    ops.append({"kind": "final", "inv": R.now(), "ret": R.now(), "got": final})
    ctx.nontrivial = n_seen > 0
    ctx.log("final", final)
    R.log_history(lambda o: "")
    if len(recs) > sc["max"]:
        ctx.probe("overflow")

    # --- the dashboard adds up
    if dash:
        st = dash.state
        n_step = sum(o["kind"] == "step" for o in hist)
        ctx.check(st.active_pipelines["p"]["total_calls"] == n_step, "does-not-add-up", lambda: f"total_calls {st.active_pipelines['p']['total_calls']}, {n_step} steps made", "calls")
        want = {"p_execution_time": [], "p_memory_usage": []}
        alerts = {"performance": 0, "memory": 0}
        for r in recs.values():
            ms, mb = r["op"]["ms"], r["op"]["mb"]
            if ms is not None:
                want["p_execution_time"].append(ms)
                alerts["performance"] += ms > 100.0
            if mb is not None:
                want["p_memory_usage"].append(mb)
                alerts["memory"] += mb > 1000.0
        if sum(alerts.values()):
            ctx.probe("alert")
        for name, w in want.items():
            g = sorted(st.performance_metrics.get(name, ()))
            ctx.check(g == sorted(w), "does-not-add-up", lambda: f"{name} {g}, recorded {sorted(w)}", name)
        n = len(st.performance_metrics.get("global_throughput", ()))
        ctx.check(n == len(recs), "does-not-add-up", lambda: f"throughput of {n} records, {len(recs)} made", "throughput")
        for name in st.performance_metrics:
            ctx.check(name in ("p_execution_time", "p_memory_usage", "global_throughput"), "does-not-add-up", lambda: f"metric {name}", "metric")
        for kind, w in alerts.items():
            g = sum(a["type"] == kind for a in st.alerts)
            ctx.check(g == w, "does-not-add-up", lambda: f"{g} {kind} alerts, {w} records above the threshold", kind)
        ctx.check(len(st.alerts) == sum(alerts.values()), "does-not-add-up", "alerts of an unknown kind", "alerts")
        for o in hist:
            if o["exc"] is not None:
                continue
            if o["kind"] == "api_perf":
                for name, m in o["res"].items():
                    v = m["values"]
                    ctx.check(m["current"] == v[-1] and abs(m["average"] - sum(v) / len(v)) < 1e-6 * abs(m["average"]) + 1e-9, "does-not-add-up", lambda: f"{name}: {m}", "api")
            elif o["kind"] == "api_alerts":
                ctx.check(o["res"]["count"] == len(o["res"]["alerts"]), "does-not-add-up", lambda: f"{o['res']}", "api")
            elif o["kind"] == "api_list":
                ctx.check(o["res"] == {"pipelines": ["p"], "count": 1}, "does-not-add-up", lambda: f"{o['res']}", "api-list")
        if sc["clients"]:
            sent = [d for ev, d in dash.socketio.sent if ev == "pipeline_data_update"]
            ctx.check(len(sent) == len(recs), "does-not-add-up", lambda: f"{len(sent)} updates broadcast, {len(recs)} records", "broadcast")

    # --- one order explains everything
    mx = sc["max"]

    def step(state, e):
        count, rs = state  # rs: (id, step) of all records since the last clear
        k = e["kind"]
        if k == "rec":
            return [(count, rs + ((e["o"]["id"], count),))]
        if k == "step":
            return [(count + 1, rs)]
        if k == "clear":
            return [(0, ())]
        last = rs[-mx:]
        if k == "recent":
            n = e["o"]["n"]
            want = last[max(len(last) - n, 0) :]
            return [state] if (e["got"], e["steps"]) == (tuple(i for i, _ in want), tuple(s for _, s in want)) else []
        if k == "api_data":
            return [state] if e["got"] == tuple(i for i, _ in last[-100:]) else []
        if k == "text":
            return [state] if e["got"] == min(20, len(last)) else []
        if k == "module":
            m, t = e["o"]["mod"], e["o"]["type"]
            want = [(i, s) for i, s in rs if recs[i]["mod"] == m][-mx:]
            want = [(i, s) for i, s in want if not t or recs[i]["type"] == t]
            return [state] if (e["got"], e["steps"]) == (tuple(i for i, _ in want), tuple(s for _, s in want)) else []
        mods = {}
        for i, _ in rs:
            mods.setdefault(recs[i]["mod"], []).append(i)
        want = (count, tuple(i for i, _ in last), tuple((m, tuple(q[-mx:])) for m, q in sorted(mods.items())))
        return [state] if e["got"] == want else []

    try:
        ok = linearize(ops, (0, ()), step)
    except Budget:
        ctx.probe("search-cut")
        return
    if ok is None:
        ctx.violate(
            "not-linearizable",
            "no order of the records, steps, clears and reads explains the results: "
            + "; ".join(f"{e['kind']}{[e['inv'], e['ret']]} {e['o'].get('id', '') if e['kind'] == 'rec' else e.get('got', '')}" for e in ops),
        )
