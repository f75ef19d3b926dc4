"""C17 - background monitoring threads start once, stop on request and do no harm."""

import sys

import numpy as np

RUNS = {"quick": 10000, "thorough": 50000}
SEARCH = "schedules of 1-3 user threads and the background workers, start/stop placements, failing updates, failing thread starts, slow updates and clock jumps"
RULE = (
    "One run lets 1-3 simulated threads start and stop an animation, a text or matplotlib monitor or the dashboard server and "
    "record data meanwhile, on simulated time, while updates, thread starts and servers fail. At most one worker updates at a time, never "
    "more often than its period, never after a stop returned; when faults stop, updates come again within two periods and show "
    "the newest data; the data shown never change and no worker keeps the process alive. Non-trivial: a worker updated something."
)
STATE_MEASURE = "distinct preemption sites (file, function, line or instruction) in wax, and distinct orders of operation begins and ends"
REAL = ["AnimatedPipelineFlow and InteractiveParameterControls", "DataFlowVisualizer monitoring and create_flow_animation", "InteractiveDashboard server control", "DataFlowTracker", "Python threads (scheduled one at a time)", "ipywidgets"]
STUB = ["clock and sleeping", "threads, locks and events", "plotly figures, flask_socketio server (not installed)", "matplotlib drawing and its animation timer", "terminal output"]
ASSUMPTIONS = ["an update takes less than one period unless the run makes it slow", "the dashboard server ends only by failing (its library has no clean shutdown)"]
PROBES = ["anim", "text", "mpl", "server", "flow", "controls", "double-start", "failing-update", "failing-start", "stop-idle", "restart", "slow-update", "concurrent-stop", "left-running", "stop-from-update", "blocking-server"]
SHRINK_LISTS = ["threads", "threads.*", "sched.decisions"]
SHRINK_INTS = []


def gen(rng, idx, tier):
    from sim.race import schedule

    what = rng.choice(["anim"] * 4 + ["text"] * 3 + ["mpl", "server", "server", "flow", "flow", "controls"])
    n = rng.choice([1, 1, 2, 2, 3])
    threads = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randrange(1, 7)):
            k = rng.choice(["start", "start", "stop", "sleep", "sleep", "rec", "rec", "fail", "heal", "slow", "nospawn", "jump"])
            op = {"k": k}
            if k == "sleep":
                op["d"] = rng.choice([0.01, 0.05, 0.25, 1.0])
            if k == "rec":
                op["m"] = rng.choice("abc")
            if k == "fail":
                op["e"] = rng.choice(["os", "value"])
            if k == "jump":
                op["by"] = rng.choice([-3600.0, 3600.0])
            if k == "start":
                op["blocking"] = rng.random() < 0.2
            ops.append(op)
        threads.append(ops)
    return {
        "what": what,
        "threads": threads,
        "interval": rng.choice([0.05, 0.1, 0.1, 0.5]),
        "leave": rng.random() < 0.3,
        "selfstop": rng.random() < 0.15,
        "bname": rng.choice(["b", "b", "b Data", "Data b", "a Data b"]),
        "frames": rng.randrange(1, 6),
        "failframe": rng.choice([None, None, 0, 1, 3]),
        "changes": [[rng.choice("fib"), rng.randrange(100)] for _ in range(rng.randrange(1, 6))],
        "callbacks": [rng.choice(["ok", "ok", "raise"]) for _ in range(rng.randrange(1, 4))],
        "sched": schedule(rng, opcode=0.25),
    }


class Quiet:
    """Accepts every attribute, call and item: what is drawn does not matter."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __call__(self, *a, **k):
        return self

    def __setattr__(self, name, v):
        pass


def run(sc, ctx):
    from sim import stubs

    stubs.install()
    ctx.probe(sc["what"])
    if sc["what"] == "controls":
        return run_controls(sc, ctx)
    if sc["what"] == "flow":
        return run_flow(sc, ctx)
    if sc["what"] == "server":
        return run_server(sc, ctx)
    return run_worker(sc, ctx)


FAIL = {"os": OSError("broken pipe"), "value": ValueError("bad update")}


def run_worker(sc, ctx):
    import warnings

    from wax.flax.visualization import data_flow_visualizer as V
    from wax.flax.visualization import jupyter_viz as J

    from sim import sched
    from sim.race import Race

    R = Race(ctx, sc)
    env = R.env
    what, ivl = sc["what"], sc["interval"]
    bname = sc.get("bname", "b")
    tr = V.DataFlowTracker(max_history=1000)
    tr.record_data("a", "output", 0)
    recs = [("a", 0, 0)]
    tries, shown = [], []  # (when, sim time, worker, failed), and what is shown last
    st = {"fail": None, "slow": 0.0, "selfstop": sc["selfstop"]}

    def update(content=None):
        t = sched.current()
        e = st["fail"]
        tries.append((R.now(), R.mono(), t.cur_task.idx if t else -1, e is not None))
        if e is not None:
            ctx.fault("update-fails")
            ctx.probe("failing-update")
            raise e
        if st["slow"]:
            ctx.fault("slow-update")
            ctx.probe("slow-update")
            R.sleep(st["slow"])

    def from_update():
        if st["selfstop"]:
            st["selfstop"] = False
            ctx.probe("stop-from-update")
            do({"k": "stop"})

    undo = []
    if what == "anim":
        A = J.AnimatedPipelineFlow(J.JupyterVizConfig(animation_interval_ms=ivl * 1000))
        fig = A.create_flow_animation(["a", bname], tr)

        def on_update():
            update()
            from_update()

        fig.on_update = on_update
        start, stop = lambda: A.start_animation(tr), A.stop_animation
    elif what == "text":
        viz = V.DataFlowVisualizer(backend="text", update_interval=ivl)
        viz.attach_tracker(tr)

        class Out:
            def write(self, s):
                if "WAX-ML Streaming" in s:
                    update()
                    shown.append(s)
                    from_update()
                return len(s)

            def flush(self):
                pass

        old = sys.stdout
        sys.stdout = Out()
        undo.append(lambda: setattr(sys, "stdout", old))
        start, stop = viz.start_real_time_monitoring, lambda: viz.stop_real_time_monitoring()
    else:
        live = []

        class FakeAnim:
            """A timer that never fires: what counts is how many are running."""

            def __init__(self, fig, func, **kw):
                self.func, self.event_source = func, self
                live.append(self)
                if abs(kw.get("interval", 0) - ivl * 1000) > 1:
                    ctx.violate("wrong-period", f"a timer of {kw.get('interval')} ms, the interval is {ivl} s")

            def stop(self):
                if self in live:
                    live.remove(self)

        class FakePlt(Quiet):
            def subplots(self, *a, **k):
                return Quiet(), np.array([[Quiet()] * 2] * 2, object)

        for name, fake in (("animation", type("m", (), {"FuncAnimation": FakeAnim})), ("plt", FakePlt())):
            undo.append(lambda name=name, v=getattr(V, name): setattr(V, name, v))
            setattr(V, name, fake)
        viz = V.DataFlowVisualizer(backend="matplotlib", update_interval=ivl)
        viz.attach_tracker(tr)
        start, stop = viz.start_real_time_monitoring, lambda: viz.stop_real_time_monitoring()
        sc["threads"] = sc["threads"][:1]  # matplotlib is used from one thread
    used = set()

    def workers():
        return [t for t in R.s.tasks if t.name.startswith("T:") and not t.done]

    def do(op):
        k = op["k"]
        if k == "start":
            if "start" in used:
                ctx.probe("double-start")
            if "stop" in used:
                ctx.probe("restart")
            used.add("start")
            o = R.op("start", start)
            if o["exc"] is not None:
                if env.calls.get("thread.start-failed") and "can't start new thread" in str(o["exc"]):
                    ctx.probe("failing-start")
                    ctx.fault("thread-start-fails")
                    o["kind"] = "failed-start"
                else:
                    ctx.violate("start-failed", f"starting raised {o['exc']!r}")
        elif k == "stop":
            if "start" not in used:
                ctx.probe("stop-idle")
            used.add("stop")
            t0 = R.mono()
            o = R.op("stop", stop)
            ctx.check(o["exc"] is None, "stop-failed", lambda: f"stopping raised {o['exc']!r}")
            if any(p["kind"] == "stop" and p is not o and p["ret"] and p["ret"] > o["inv"] for p in R.hist):
                ctx.probe("concurrent-stop")
            if not st["slow"] and len(sc["threads"]) == 1:
                ctx.check(R.mono() - t0 <= ivl + 0.01, "slow-stop", lambda: f"stopping took {R.mono() - t0} s, the period is {ivl} s")
        elif k == "sleep":
            R.sleep(op["d"])
        elif k == "rec":
            v = len(recs)
            name = bname if op["m"] == "b" else op["m"]
            recs.append((name, v, v))
            tr.step()
            tr.record_data(name, "output", v)
        elif k == "fail":
            st["fail"] = FAIL[op["e"]]
        elif k == "heal":
            st["fail"] = None
        elif k == "slow":
            st["slow"] = ivl * 1.5
        elif k == "nospawn" and what != "mpl":
            env.spawn_fail = 1
        elif k == "jump":
            env.clock.jump(op["by"])

    left = [len(sc["threads"])]

    def closing():
        """The last thread to finish: faults are over, then everything must work."""
        st["fail"], st["slow"], env.spawn_fail, st["selfstop"] = None, 0.0, 0, False
        do({"k": "start"})
        n, t0 = len(tries), R.mono()
        if what == "mpl":
            ctx.check(len(live) == 1, "two-workers", lambda: f"{len(live)} timers are running", "timers")
            do({"k": "stop"})
            do({"k": "stop"})
            ctx.check(not live, "not-stopped", f"{len(live)} timers are running after a stop", "timers")
            ctx.nontrivial = True
            return
        R.sleep(ivl * 5.5)
        got = len(tries) - n
        ctx.check(got >= 3, "no-updates", lambda: f"{got} updates in {R.mono() - t0} s, the period is {ivl} s")
        ctx.check(got <= 8, "too-many-updates", lambda: f"{got} updates in {R.mono() - t0} s, the period is {ivl} s", "closing")
        ctx.check(len(workers()) == 1, "two-workers", lambda: f"{len(workers())} workers are alive after a start", "alive")
        do({"k": "rec", "m": "b"})
        R.sleep(ivl * 2)
        last = tr.get_recent_data(1000)
        if what == "anim":
            for tname in ("a", bname):
                want = [(dp.step, dp.value) for dp in last[-50:] if dp.module_name == tname]
                x, y = fig.updates[-1][f"{tname} Data"]
                ctx.check(list(zip(x, y)) == want, "stale-update", lambda: f"{tname}: shown {list(zip(x, y))}, tracked {want}", "anim")
        else:
            ctx.check(f"Total steps: {tr.step_count}\n" in shown[-1] and f"Recent points: {min(20, len(last))}\n" in shown[-1], "stale-update", lambda: f"shown {shown[-1]!r}, tracked {len(last)} points", "text")
        if sc["leave"]:
            ctx.probe("left-running")
            return
        do({"k": "stop"})
        n = len(tries)
        ctx.check(not workers(), "not-stopped", lambda: f"{len(workers())} workers are alive after a stop", "alive")
        R.sleep(ivl * 3)
        ctx.check(len(tries) == n, "not-stopped", lambda: f"{len(tries) - n} updates after a stop", "updates")
        do({"k": "stop"})

    def thread(ops):
        def body():
            for op in ops:
                do(op)
            left[0] -= 1
            if left[0] == 0:
                closing()

        return body

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok = R.run([thread(ops) for ops in sc["threads"]])
    finally:
        for f in undo:
            f()
    if not ok:
        return
    if what != "mpl":
        ctx.nontrivial = bool(tries)
    R.log_history(lambda o: "")
    ctx.log(tries)

    # --- the data shown are unchanged
    want = sorted((m, v) for m, _, v in recs)
    got = sorted((dp.module_name, dp.value) for dp in tr.data_history)
    ctx.check(got == want, "data-changed", lambda: f"tracked {got}, recorded {want}")

    # --- no update when stopped, one worker at a time, not too often
    starts = [o for o in R.hist if o["kind"] == "start"]
    stops = [o for o in R.hist if o["kind"] == "stop"]
    for u, mono, w, _ in tries:
        bad = [p for p in stops if p["ret"] is not None and p["ret"] < u and w not in p.get("own", ()) and not any(s["inv"] < u and (s["ret"] is None or s["ret"] > p["inv"]) for s in starts)]
        # a stop asked for from within an update is finished with that update
        bad = [p for p in bad if not sc["selfstop"]]
        if bad:
            ctx.violate("not-stopped", f"an update at {u} after a stop {[bad[0]['inv'], bad[0]['ret']]} and no start since", "update")
            break
    seen = []
    for _, _, w, _ in tries:
        if w in seen and seen[-1] != w:
            ctx.violate("two-workers", f"updates of two workers alternate: {[t[2] for t in tries]}", "alternate")
            break
        if w not in seen:
            seen.append(w)
    for (u1, m1, w1, _), (u2, m2, w2, _) in zip(tries, tries[1:]):
        if m2 - m1 < ivl - 1e-3 and not any(u1 < (s["ret"] or u2) and s["inv"] < u2 for s in starts):
            ctx.violate("too-many-updates", f"updates at {m1} and {m2} s, the period is {ivl} s", "rate")
            break


def run_flow(sc, ctx):
    """create_flow_animation draws a tracker that others go on recording to."""
    from wax.flax.visualization import data_flow_visualizer as V

    from sim.race import Race

    R = Race(ctx, sc)
    tr = V.DataFlowTracker(max_history=50)
    recs = []

    def rec(m):
        v = len(recs)
        recs.append(v)
        tr.step()
        tr.record_data(m, "output", v)

    for i in range(3):
        rec("a")
    frames, st = [], {"n": 0}

    class Ax(Quiet):
        def __init__(self, k):
            object.__setattr__(self, "k", k)

        def clear(self):
            if self.k == 2:
                frames.append([])

        def scatter(self, t, y, **kw):
            if self.k == 2:
                frames[-1].append(t)
                R.sleep(0.001)

    class FakePlt(Quiet):
        def subplots(self, *a, **k):
            return Quiet(), np.array([[Ax(0), Ax(1)], [Ax(2), Ax(3)]], object)

    class FakeAnim:
        def __init__(self, fig, func, frames=None, **kw):
            self.func, self.frames = func, frames

        def save(self, path, **kw):
            for i in range(self.frames):
                if i == sc["failframe"]:
                    ctx.fault("export-fails")
                    raise OSError("no space left on device")
                self.func(i)
                st["n"] += 1

    old = V.animation, V.plt
    V.animation, V.plt = type("m", (), {"FuncAnimation": FakeAnim}), FakePlt()
    made = []

    def draw():
        o = R.op("draw", lambda: V.create_flow_animation(tr, duration=sc["frames"] / 10, fps=10, output_path="/nowhere/x.gif"))
        made.append(o)
        if sc["failframe"] is not None and sc["failframe"] < sc["frames"]:
            ctx.check(isinstance(o["exc"], OSError), "failure-hidden", lambda: f"the export failed, the caller got {o['exc'] or o['res']!r}")
        else:
            ctx.check(o["exc"] is None and o["res"] == "/nowhere/x.gif", "draw-failed", lambda: f"{o['exc'] or o['res']!r}")

    def thread(ops):
        def body():
            for op in ops:
                if op["k"] == "rec":
                    rec(op["m"])
                elif op["k"] == "sleep":
                    R.sleep(op["d"] / 10)

        return body

    try:
        ok = R.run([draw] + [thread(t) for t in sc["threads"]])
    finally:
        V.animation, V.plt = old
    if not ok:
        return
    ctx.nontrivial = bool(frames)
    ctx.log(len(frames), [len(f) for f in frames])
    got = [dp.value for dp in tr.data_history]
    ctx.check(sorted(got) == recs and len(tr.data_history) == len(recs), "data-changed", lambda: f"tracked {got}, recorded {recs}", "flow")
    if not any(op["k"] == "rec" for t in sc["threads"] for op in t) and made[0]["exc"] is None:
        want = [[dp.timestamp for dp in tr.data_history if dp.step <= int(i / sc["frames"] * 3)] for i in range(sc["frames"])]
        want = [f for f in want if f]  # nothing is drawn before the first point
        ctx.check([f for f in frames if f] == want, "wrong-frame", lambda: f"points shown per frame {frames}, expected {want}")


def run_server(sc, ctx):
    from wax.flax.visualization import interactive_dashboard as D

    from sim.race import Race

    R = Race(ctx, sc)
    env = R.env
    dash = D.InteractiveDashboard(D.DashboardConfig())
    io = dash.socketio
    st = {"stopped": False}

    def do(op):
        k = op["k"]
        if k == "start":
            blocking = op["blocking"] and sc["leave"]
            if blocking:
                ctx.probe("blocking-server")
            before = io.runs
            o = R.op("start", lambda: dash.start_server(blocking=blocking), alive=io.running)
            if o["exc"] is not None:
                if env.calls.get("thread.start-failed") and "can't start new thread" in str(o["exc"]):
                    ctx.probe("failing-start")
                    ctx.fault("thread-start-fails")
                else:
                    ctx.violate("start-failed", f"starting raised {o['exc']!r}")
            elif io.runs > before + 1 and len(sc["threads"]) == 1:
                ctx.violate("two-workers", f"one start ran the server {io.runs - before} times", "server")
        elif k == "stop":
            o = R.op("stop", dash.stop_server)
            ctx.check(o["exc"] is None, "stop-failed", lambda: f"stopping raised {o['exc']!r}")
        elif k == "sleep":
            R.sleep(op["d"])
        elif k == "fail":
            io.fail_run = FAIL[op["e"]]
            ctx.probe("failing-update")
            ctx.fault("server-fails")
        elif k == "heal":
            io.fail_run = None
        elif k == "nospawn":
            env.spawn_fail = 1

    left = [len(sc["threads"])]

    def closing():
        env.spawn_fail, io.fail_run = 0, None
        R.sleep(2.0)
        before = io.running
        o = R.op("start", lambda: dash.start_server(blocking=False))
        R.sleep(1.0)
        ctx.check(o["exc"] is None and io.running >= 1, "not-started", lambda: f"start_server left {io.running} servers running ({o['exc']!r}); {before} before")
        ctx.check(not before or io.running == before, "two-workers", lambda: f"{io.running} servers are running", "server")
        io.stop_all = True  # what ends a server from outside
        R.sleep(2.0)
        ctx.check(not dash.running, "wrong-status", "the dashboard says it is running after its server ended")
        io.stop_all = False
        R.op("start", lambda: dash.start_server(blocking=False))
        ctx.check(io.running == 1 and dash.running, "not-started", lambda: f"{io.running} servers after a restart", "restart")
        io.stop_all = True

    def thread(ops):
        def body():
            for op in ops:
                if op["k"] == "start" and op["blocking"] and sc["leave"]:
                    continue
                do(op)
            left[0] -= 1
            if left[0] == 0:
                closing()

        return body

    def block():
        for op in (op for ops in sc["threads"] for op in ops if op["k"] == "start" and op["blocking"]):
            do(op)

    tasks = [thread(ops) for ops in sc["threads"]]
    if sc["leave"]:
        tasks.append(block)
    if not R.run(tasks):
        return
    ctx.nontrivial = io.runs > 0
    R.log_history(lambda o: "")
    ctx.check(io.most <= 1, "two-workers", lambda: f"{io.most} servers were running at the same time", "server")


def run_controls(sc, ctx):
    """Parameter callbacks: each once per change, a failing one harms nothing."""
    import warnings

    from wax.flax.visualization import jupyter_viz as J

    C = J.InteractiveParameterControls()
    C.create_parameter_panel({"f": {"type": "float", "min": 0.0, "max": 100.0, "value": 1.0, "step": 1.0}, "i": {"type": "int", "min": 0, "max": 100, "value": 1}, "b": {"type": "bool", "value": False}})
    calls = []

    def cb(j, kind):
        def f(params):
            calls.append((j, dict(params)))
            if kind == "raise":
                ctx.fault("callback-fails")
                raise ValueError("callback")

        return f

    for j, kind in enumerate(sc["callbacks"]):
        C.add_callback(cb(j, kind))
    cur = {"f": 1.0, "i": 1, "b": False}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for name, v in sc["changes"]:
            v = {"f": float(v), "i": v, "b": bool(v % 2)}[name]
            calls.clear()
            changed = cur[name] != v
            with ctx.guard("change-failed"):
                C.controls[name].value = v
            cur[name] = v
            want = [(j, cur) for j in range(len(sc["callbacks"]))] if changed else []
            ctx.check(calls == want, "wrong-callbacks", lambda: f"after {name}={v}: callbacks {calls}, expected {want}")
            with ctx.guard("change-failed"):
                got = C.get_parameters()
            ctx.check(got == cur, "wrong-parameters", lambda: f"{got}, set {cur}")
    ctx.nontrivial = True
    ctx.log(cur, len(w) > 0)
    ctx.state("controls", tuple(sc["callbacks"]))
