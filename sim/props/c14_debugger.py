"""C14 - the debugger captures every state exactly once under any interleaving."""

import collections
import copy

import numpy as np

RUNS = {"quick": 3000, "thorough": 60000}
SEARCH = "schedules of 1-4 threads at line and bytecode granularity, hooks and their conditions, console answers, clock jumps and later mutation"
RULE = (
    "One run lets 1-4 simulated threads step a debugger (directly or through the decorator), add, remove and switch hooks, "
    "clear, summarise and export, while the scheduler preempts them anywhere; conditions raise, have no truth value or change "
    "the hooks, the console ends or quits, and the data handed over are overwritten afterwards. The recorded history must be "
    "linearizable against a small model of the debugger, captured states must equal what was handed over, and the inspected "
    "code's results and exceptions must be its own. Non-trivial: a hook fired or a state was captured."
)
STATE_MEASURE = "distinct preemption sites (file, function, line or instruction) in wax, and distinct orders of operation begins and ends"
REAL = ["wax.flax.debug.debugger", "Python threads (scheduled one at a time)"]
STUB = ["clock (wall and monotonic)", "threading locks", "console input", "the inspected model (a function that sleeps, fails or returns arrays)"]
ASSUMPTIONS = ["quitting at a breakpoint raises KeyboardInterrupt in the inspected code, by design", "objects other than arrays, dicts, lists and tuples may be captured by reference"]
PROBES = ["direct", "decorator", "break", "quit", "console-fails", "condition-raises", "no-truth-value", "self-remove", "perf-monitor", "state-change", "mutated", "clear", "disable", "overflow", "export", "namedtuple", "same-object", "flax-variables", "clock-jump-back"]
SHRINK_LISTS = ["threads", "threads.*", "hooks", "sched.decisions"]
SHRINK_INTS = []

Pair = collections.namedtuple("Pair", "a b")
CONDS = ["mod", "mod", "interval", "threshold", "raises", "vector", "once", "perf", "change", "none", "always"]


def gen_hook(rng, i):
    c = rng.choice(CONDS)
    return {"name": f"h{i}", "cond": c, "k": rng.randrange(2, 4), "th": rng.choice([2, 5]), "action": rng.choice(["log", "capture", "alert", "break"]), "max": rng.choice([1, 2, 50])}


def gen(rng, idx, tier):
    from sim.race import schedule

    n = rng.choice([1, 2, 2, 3, 3, 4])
    hooks = [gen_hook(rng, i) for i in range(rng.randrange(0, 4))]
    style = rng.choice(["mix", "mix", "steps", "reads", "hooks", "switch"])
    total = rng.randrange(3, 12)
    kinds = ["step"] * 5 + ["wrap"] * 2 + ["summary", "export", "jump"]
    if style == "mix":
        kinds += ["clear", "add", "remove"]
    if style == "reads":
        kinds += ["summary", "export", "export", "clear"]
    if style == "hooks":
        kinds += ["add", "remove", "add", "clear"]
    threads = []
    for t in range(n):
        ops = []
        for _ in range(max(1, total // n + rng.randrange(-1, 2))):
            k = rng.choice(kinds)
            if style == "switch" and t == 0 and rng.random() < 0.4:
                k = rng.choice(["off", "on", "hook-off", "hook-on"])
            op = {"k": k, "d": rng.choice([0.0, 0.0, 0.002, 0.2])}
            if k in ("step", "wrap"):
                op["kind"] = rng.choice(["dict", "dict", "inplace", "same", "same", "flax", "pair", "list", "array", "jax"])
                op["time"] = rng.choice(["id", "id", "id", "none", "zero"])
                op["raise"] = k == "wrap" and rng.random() < 0.2
                op["v"] = rng.choice([0, 0.3, 0.6, 0.9, 2])
                op["mutate"] = rng.random() < 0.5
                op["console"] = [rng.choice(["c", "s", "i", "o", "h", "??", "q", "EOF", "OS", "continue"]) for _ in range(rng.randrange(0, 3))]
                op["jump"] = rng.choice([None, None, None, -50.0, 50.0])
            if k == "jump":
                op["by"] = rng.choice([-86400.0, -1.0, 3600.0])
            if k in ("add", "remove"):
                op["hook"] = gen_hook(rng, rng.randrange(3))
            ops.append(op)
        threads.append(ops)
    return {
        "threads": threads, "hooks": hooks, "max": rng.choice([1, 2, 3, 100, 100]), "track": rng.random() < 0.85, "perf": rng.random() < 0.85,
        "timing": rng.random() < 0.8, "sched": schedule(rng),
    }


class Own:
    """What a thread updates in place between its steps."""

    def __init__(self):
        self.arr = np.zeros(1)
        self.obj = {"id": np.zeros(2), "v": 0.0, "deep": {"x": np.zeros(1)}}


def make_state(op, i, own):
    import jax.numpy as jnp

    v = float(op["v"])
    a = np.array([i, 10.0 * i])
    if op["kind"] == "inplace":  # a thread that updates its state in place
        own.arr[:] = v
        return {"id": a, "v": own.arr}
    if op["kind"] == "same":  # the very same object at every step, its contents updated
        own.obj["id"][:] = a
        own.obj["v"] = v
        own.obj["deep"]["x"][:] = i
        return own.obj
    if op["kind"] == "flax":
        return {"params": {"w": np.zeros((2, 3))}, "state": {"id": a, "deep": {"x": [np.array([float(i)]), jnp.array([i])]}}}
    if op["kind"] == "pair":
        return {"id": a, "v": v, "pair": Pair(np.array([float(i)]), (np.array([1.0]), "s"))}
    if op["kind"] == "list":
        return [a, [np.array([float(i)]), {"z": np.array([2.0])}]]
    if op["kind"] == "array":
        return a
    if op["kind"] == "jax":
        return {"id": jnp.array([i, 2 * i]), "v": jnp.float32(v)}
    return {"id": a, "v": v, "deep": {"x": np.array([float(i)]), "y": [np.array([3.0])]}}


def arrays(tree):
    if isinstance(tree, np.ndarray):
        yield tree
    elif isinstance(tree, dict):
        for x in tree.values():
            yield from arrays(x)
    elif isinstance(tree, (list, tuple)):
        for x in tree:
            yield from arrays(x)


def expected_state(state):
    """What the history keeps of a state."""
    if isinstance(state, dict) and "params" in state and "state" in state:
        return {"params_shapes": {"w": (2, 3)}, "state_values": state["state"]}
    return state


def run(sc, ctx):
    from wax.flax.debug import debugger as D

    from sim import sched
    from sim.core import differs
    from sim.lin import Budget, linearize
    from sim.race import Race

    R = Race(ctx, sc)
    env = R.env
    t_created = R.mono()
    dbg = D.StreamingDebugger(enable_state_tracking=sc["track"], enable_performance_tracking=sc["perf"], max_history=sc["max"])
    ids = iter(range(1, 1000))
    info = {}  # id -> what was handed over (deep copies)
    owned = {}  # task -> its own state
    current = {}  # task -> console script of its running step

    class Boom(Exception):
        pass

    def make_cond(h):
        c = h["cond"]
        if c == "none":
            return None
        if c == "always":
            return lambda step, state, inp, out: True
        if c == "interval":
            return D.step_interval(h["k"])
        if c == "threshold":
            return D.value_threshold(float(h["th"]), "id")
        if c == "change":
            return D.state_change_detector("v", tolerance=0.5)

        def cond(step, state, inp, out):
            i = int(inp["id"])
            if c == "raises":
                if i % 2:
                    raise ValueError("condition failed")
                return True
            if c == "vector":
                return np.array([True, True])
            if c == "once":
                dbg.remove_hook(h["name"])
                return True
            return i % h["k"] == 0

        return cond

    def add(h):
        if h["cond"] == "perf":
            dbg.add_performance_monitor(h["name"], threshold_ms=float(h["th"]))
        else:
            dbg.add_hook(D.DebugHook(h["name"], make_cond(h), action=h["action"], max_events=h["max"]))

    def console():
        me = sched.current()
        key = me.cur_task.idx if me else -1
        script = current.get(key, [])
        R.sleep(0.5)
        cmd = script.pop(0) if script else "c"
        ctx.fault("console-" + cmd)
        if cmd == "EOF":
            ctx.probe("console-fails")
            raise EOFError
        if cmd == "OS":
            ctx.probe("console-fails")
            raise OSError("stdin is closed")
        return cmd

    env.input_script = console
    with ctx.guard("setup-failed", "add_hook"):
        for h in sc["hooks"]:
            add(h)

    def model_apply(params, state, rng, x):
        op, new = params
        R.sleep(op["d"])
        if op["jump"] is not None:
            env.clock.jump(op["jump"])
            if op["jump"] < 0:
                ctx.probe("clock-jump-back")
        if op["raise"]:
            raise Boom
        return x, new

    class Model:
        init = staticmethod(lambda rng, x: ({}, {}))
        apply = staticmethod(model_apply)
        __name__ = "model"

    wrapped = D.debug_streaming(dbg, "model", enable_timing=sc["timing"])(Model)

    def catch(fn):
        def f():
            try:
                return fn()
            except KeyboardInterrupt:
                return "quit"

        return f

    def do(op):
        k = op["k"]
        me = sched.current()
        key = me.cur_task.idx if me else -1
        if k in ("step", "wrap"):
            i = next(ids)
            state = make_state(op, i, owned.setdefault(key, Own()))
            x = {"id": float(i), "arr": np.array([float(i), 1.0])}
            out = [np.array([2.0 * i])]
            info[i] = {"state": copy.deepcopy(state), "x": copy.deepcopy(x), "out": copy.deepcopy(out), "op": op}
            current[key] = list(op["console"])
            if op["kind"] == "pair":
                ctx.probe("namedtuple")
            if op["kind"] == "same":
                ctx.probe("same-object")
            if op["kind"] == "flax":
                ctx.probe("flax-variables")
        if k == "step":
            dt = {"id": i * 1e-3, "none": None, "zero": 0.0}[op["time"]]
            info[i]["time"] = dt
            o = R.op("step", catch(lambda: dbg.step("model", state, x, out, dt)), id=i)
            ctx.probe("direct")
            ctx.check(o["exc"] is None, "step-failed", lambda: f"step raised {o['exc']!r}", type(o["exc"]).__name__)
        elif k == "wrap":
            info[i]["time"] = "measured" if sc["timing"] else None
            o = R.op("fail" if op["raise"] else "step", catch(lambda: wrapped.apply((op, state), {}, None, x)), id=i)
            info[i]["out"] = copy.deepcopy(info[i]["x"])
            info[i]["span"] = (op["d"], o["t1"] - o["t0"])
            ctx.probe("decorator")
            if op["raise"]:
                ctx.fault("inspected-code-raises")
                ctx.check(isinstance(o["exc"], Boom), "wrong-exception", lambda: f"the inspected code raised Boom, the caller got {o['exc']!r}")
            elif o["exc"] is not None:
                ctx.violate("step-failed", f"the inspected function raised {o['exc']!r}", "decorator")
            elif o["res"] != "quit":
                ctx.check(o["res"][0] is x and o["res"][1] is state, "wrong-result", "the inspected function's result is changed")
        if k in ("step", "wrap") and op["mutate"]:
            ctx.probe("mutated")
            ctx.fault("later-mutation")
            for a in list(arrays(state)) + list(arrays(x)) + list(arrays(out)):
                a += 1000.0
            if isinstance(state, dict):
                for v in state.values():
                    if isinstance(v, dict):
                        v.pop("y", None)
        if k == "summary":
            o = R.op("summary", dbg.get_summary)
            ctx.check(o["exc"] is None, "read-failed", lambda: f"get_summary raised {o['exc']!r}", "summary")
        elif k == "export":
            o = R.op("export", dbg.export_events)
            ctx.probe("export")
            ctx.check(o["exc"] is None, "read-failed", lambda: f"export_events raised {o['exc']!r}", "export")
            if o["exc"] is None:
                o["copy"] = copy.deepcopy(o["res"])
        elif k == "clear":
            R.op("clear", dbg.clear_history)
            ctx.probe("clear")
        elif k == "add":
            R.op("add", lambda: add(op["hook"]), hook=op["hook"])
        elif k == "remove":
            R.op("remove", lambda: dbg.remove_hook(op["hook"]["name"]) and None, hook=op["hook"])
        elif k in ("on", "off"):
            R.op(k, dbg.enable if k == "on" else dbg.disable)
            ctx.probe("disable")
        elif k in ("hook-on", "hook-off"):
            h = dbg.hooks.get("h0")
            if h is not None:

                def switch(h=h, k=k):
                    h.enabled = k == "hook-on"

                R.op(k, switch, obj=id(h))
        elif k == "jump":
            env.clock.jump(op["by"])
            if op["by"] < 0:
                ctx.probe("clock-jump-back")

    def thread(ops):
        def body():
            for op in ops:
                do(op)

        return body

    if not R.run([thread(ops) for ops in sc["threads"]]):
        return
    final = R.op("export", dbg.export_events)
    if final["exc"] is not None:
        ctx.fail("read-failed", f"export_events raised {final['exc']!r}", "export")
    final["copy"] = copy.deepcopy(final["res"])
    for o in R.hist:
        if "copy" in o:
            d = differs(o["res"], o["copy"])
            ctx.check(d is None, "export-changed", lambda: f"an export changed after it was returned: {d}")

    # --- captured states and events hold what was handed over
    def sid(snap):
        s = snap.get("state_values", snap) if isinstance(snap, dict) else snap
        a = s["id"] if isinstance(s, dict) else s[0] if isinstance(s, list) else s
        return int(np.asarray(a)[0])

    hist_ids = []
    for snap in dbg.state_history:
        try:
            i = sid(snap)
            hist_ids.append(i)
            want = expected_state(info[i]["state"])
        except Exception as e:
            ctx.violate("snapshot-damaged", f"captured state {snap!r} is unreadable: {e!r}"[:600])
            continue
        d = differs(snap, want)
        ctx.check(d is None, "snapshot-damaged", lambda: f"captured state of observation {i} ({info[i]['op']['kind']}): {d}", "history")
    ctx.check(len(hist_ids) <= sc["max"], "history-overflow", lambda: f"{len(hist_ids)} states, limit {sc['max']}")
    hooks_now = {}
    for name, h in dbg.hooks.items():
        evs = []
        for e in h.events:
            try:
                i = int(e.input_data["id"])
            except Exception:
                ctx.violate("snapshot-damaged", f"input of an event is {e.input_data!r}"[:300], "event-input")
                continue
            evs.append((e.step, i))
            for what, got, want in (("state", e.state_snapshot, info[i]["state"]), ("input", e.input_data, info[i]["x"]), ("output", e.output_data, info[i]["out"])):
                d = differs(got, want)
                ctx.check(d is None, "snapshot-damaged", lambda: f"{what} of the event of hook {name} at step {e.step} ({info[i]['op']['kind']}): {d}", f"event-{what}")
            ctx.check(e.module_name == "model", "wrong-event", lambda: f"module {e.module_name}")
            tm = info[i]["time"]
            ms = (e.metadata or {}).get("execution_time_ms")
            if tm is None or isinstance(tm, float):
                ctx.check(ms is None if tm is None else ms is not None and abs(ms - tm * 1000) < 1e-9, "wrong-event", lambda: f"execution_time_ms {ms} for {tm} s", "time")
            else:
                lo, hi = info[i]["span"]
                ctx.check(ms is not None and lo * 1000 - 1e-3 <= ms <= hi * 1000 + 1e-3, "wrong-event", lambda: f"execution_time_ms {ms}, the code took {lo}..{hi} s", "time")
            st = (e.metadata or {}).get("session_time", 0)
            ctx.check(-1e-9 <= st <= final["t1"] - t_created + 1e-6, "wrong-event", lambda: f"session time {st}", "session-time")
        hooks_now[name] = tuple(evs)
        ctx.check(len(h.events) <= h.max_events, "history-overflow", lambda: f"hook {name}: {len(h.events)} events, limit {h.max_events}", "hook")
    ctx.nontrivial = bool(hist_ids) or any(hooks_now.values())
    ctx.log("history", hist_ids, "hooks", sorted(hooks_now.items()), "steps", dbg.current_step)
    R.log_history(lambda o: "")

    # --- the history as a whole is linearizable
    from sim.props.c13_profiler import flags

    ops = []
    for o in R.hist:
        k = o["kind"]
        e = {"kind": k, "inv": o["inv"], "ret": o["ret"], "o": o}
        if k == "step":
            e["may"] = flags(R.hist, o)
        if k == "fail":
            continue
        ops.append(e)
    fin = {"kind": "final", "inv": R.now(), "ret": R.now(), "got": (dbg.current_step, tuple(hist_ids) if sc["track"] else (), tuple(sorted(hooks_now.items())))}
    ops.append(fin)
    mx, track, perf = sc["max"], sc["track"], sc["perf"]
    specs = {}

    def new_hook(h):
        name = "perf_" + h["name"] if h["cond"] == "perf" else h["name"]
        key = repr(sorted(h.items()))
        specs[key] = h
        # name, spec, hits, events, memory, on
        return (name, key, 0, (), None, True)

    def put(hooks, new):
        out = [new if x[0] == new[0] else x for x in hooks]
        return tuple(out) if any(x[0] == new[0] for x in hooks) else tuple(out) + (new,)

    def do_step(state, i):
        count, hist, times, hooks = state
        count += 1
        op = info[i]["op"]
        tm = info[i]["time"]
        if track:
            hist = (hist + (i,))[-mx:]
        if perf and tm is not None:
            times = (times + ((i, count),))[-mx:]
        script = list(op["console"])
        live = {x[0]: x for x in hooks}
        removed = set()
        for x in hooks:
            name, key, hits, evs, mem, on = x
            h = specs[key]
            c = h["cond"]
            hit = False
            if on:
                if c == "mod":
                    hit = i % h["k"] == 0
                elif c == "interval":
                    hit = count % h["k"] == 0
                elif c == "threshold":
                    hit = i > h["th"]
                elif c == "raises":
                    hit = i % 2 == 0
                    ctx.probe("condition-raises")
                elif c == "vector":
                    hit = False
                    ctx.probe("no-truth-value")
                elif c == "once":
                    hit = True
                    removed.add(name)
                    ctx.probe("self-remove")
                elif c == "always":
                    hit = True
                elif c == "perf":
                    ctx.probe("perf-monitor")
                    if perf and tm is not None:
                        if tm == "measured":
                            lo, hi = info[i]["span"]
                            if lo * 1000 > h["th"] + 0.01:
                                hit = True
                            elif hi * 1000 < h["th"]:
                                hit = False
                            else:
                                hit = "either"
                        else:
                            hit = tm * 1000 > h["th"]
                elif c == "change":
                    ctx.probe("state-change")
                    s = info[i]["state"]
                    if isinstance(s, dict) and "v" in s:
                        v = float(np.ravel(s["v"])[0])
                        if mem is None:
                            mem = v
                        elif abs(v - mem) > 0.5:
                            hit, mem = True, v
            if hit == "either":
                hit = any(ee[1] == i for ee in hooks_now.get(name, ())) if name in hooks_now else False
            if hit:
                hits += 1
                cap = 1000 if c == "perf" else h["max"]
                evs = (evs + ((count, i),))[-cap:]
            live[name] = (name, key, hits, evs, mem, on)
            if hit and c != "perf" and h["action"] == "break":
                ctx.probe("break")
                quit_ = False
                while script:
                    cmd = script.pop(0)
                    if cmd in ("c", "continue", "EOF", "OS"):
                        break
                    if cmd == "q":
                        quit_ = True
                        break
                if quit_:
                    ctx.probe("quit")
                    break
        hooks = tuple(live[x[0]] for x in hooks if x[0] not in removed)
        return (count, hist, times, hooks)

    def agrees(state, summary):
        count, hist, times, hooks = state
        if summary["total_steps"] != count or summary["state_history_length"] != len(hist):
            return False
        if set(summary["hooks"]) != {x[0] for x in hooks}:
            return False
        for x in hooks:
            got = summary["hooks"][x[0]]
            if got["hit_count"] != x[2] or got["events"] != len(x[3]) or got["enabled"] != x[5]:
                return False
        p = summary["performance"]
        if not times:
            return not p or p["total_steps"] == 0
        if not p or p["total_steps"] != len(times):
            return False
        known = [info[i]["time"] for i, _ in times]
        if all(isinstance(t, float) for t in known):
            for key, v in (("avg_time_ms", sum(known) / len(known)), ("max_time_ms", max(known)), ("min_time_ms", min(known))):
                if abs(p[key] - v * 1000) > 1e-6:
                    return False
        return True

    def step(state, e):
        count, hist, times, hooks = state
        k = e["kind"]
        if k == "step":
            can, skip = e["may"]
            return ([do_step(state, e["o"]["id"])] if can else []) + ([state] if skip else [])
        if k == "add":
            return [(count, hist, times, put(hooks, new_hook(e["o"]["hook"])))]
        if k == "remove":
            return [(count, hist, times, tuple(x for x in hooks if x[0] != e["o"]["hook"]["name"]))]
        if k == "clear":
            return [(count, (), (), tuple((n, key, 0, (), mem, on) for n, key, _, _, mem, on in hooks))]
        if k in ("hook-on", "hook-off"):
            out = [(count, hist, times, tuple((n, key, a, b, m, k == "hook-on") if n == "h0" else (n, key, a, b, m, o_) for n, key, a, b, m, o_ in hooks))]
            # the hook that was looked up may have been replaced in the meantime
            return out + [state]
        if k == "summary":
            return [state] if e["o"]["exc"] is not None or agrees(state, e["o"]["res"]) else []
        if k == "export":
            r = e["o"].get("copy")
            if r is None:
                return [state]
            if not agrees(state, r["summary"]):
                return []
            for x in hooks:
                if [ev["step"] for ev in r["hooks"].get(x[0], [])] != [s for s, _ in x[3]]:
                    return []
            pd = r["performance_data"]
            if list(pd.get("step", [])) != [s for _, s in times]:
                return []
            got = list(pd.get("execution_time", []))
            if len(got) != len(times):
                return []
            for g, (i, _) in zip(got, times):
                t = info[i]["time"]
                if isinstance(t, float) and abs(g - t) > 1e-12:
                    return []
                if t == "measured" and not (info[i]["span"][0] - 1e-6 <= g <= info[i]["span"][1] + 1e-6):
                    return []
            return [state]
        if k == "final":
            now = (count, hist, tuple(sorted((x[0], x[3]) for x in hooks)))
            return [state] if now == e["got"] else []
        return [state]

    init = (0, (), (), ())
    for h in sc["hooks"]:
        init = init[:3] + (put(init[3], new_hook(h)),)
    if sum(o["kind"] == "step" for o in R.hist) > mx:
        ctx.probe("overflow")
    if has_ambiguity(sc, info):
        return
    try:
        ok = linearize(ops, init, step)
    except Budget:
        ctx.probe("search-cut")
        return
    if ok is None:
        ctx.violate(
            "not-linearizable",
            "no order of the operations explains what was captured and reported: "
            + "; ".join(f"{e['kind']}{[e['inv'], e['ret']]}{' ' + str(e['o'].get('id', '')) if 'o' in e else ' ' + str(e['got'])}" for e in ops),
        )


def has_ambiguity(sc, info):
    """A measured time so close to a monitor's threshold that both answers are right."""
    ths = [h["th"] for h in sc["hooks"] if h["cond"] == "perf"] + [op["hook"]["th"] for th in sc["threads"] for op in th if "hook" in op and op["hook"]["cond"] == "perf"]
    for x in info.values():
        if x.get("time") == "measured" and "span" in x:
            lo, hi = x["span"]
            if any(lo * 1000 <= t + 0.01 and hi * 1000 >= t for t in ths):
                return True
    return False
