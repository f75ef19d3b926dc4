"""C22 - the compiled CPU kernels agree with the streaming modules, in parts and across restarts."""

import numpy as np

RUNS = {"quick": 900, "thorough": 40000}
RULE = (
    "One run streams 1-3 sessions of tables with outages through the numba exponential mean (function, frame and series accessor), "
    "compiled or interpreted, in parts between which the process crashes (only the pickled state survives), the same saved state is "
    "resumed several times or by several sessions, series join, leave and change places, calls fail, arrays are read-only; sessions may run in "
    "simulated threads that are preempted inside the kernel. Every value is compared with the streaming module stepping over "
    "each series alone. Non-trivial: something is missing and the stream is cut."
)
STATE_MEASURE = "distinct (way, settings, compiled, dtype, number of observations before the part, missing first, joined, crash, forked)"
REAL = ["wax.numba.ewma_numba", "wax.modules.ewma (the reference)", "numba", "pandas"]
STUB = ["interpreted kernels run with numba's own DISABLE_JIT switch (the same Python code)", "thread scheduling (seeded, one thread at a time)"]
ASSUMPTIONS = ["series that leave are forgotten: one that comes back starts afresh", "infinite observations are judged in the other series only"]
PROBES = ["compiled", "interpreted", "function", "frame", "series", "crash", "fork", "joined", "left", "reordered", "threads", "bad-call", "read-only", "integer", "linear", "min-periods", "initial", "infinite"]
SHRINK_LISTS = ["sessions", "sessions.*.parts", "sessions.*.missing", "sched.decisions"]
SHRINK_INTS = [("sessions.*.parts.*.n", 1)]


def gen(rng, idx, tier):
    from sim import race

    compiled = rng.random() < (0.02 if tier == "quick" else 0.1)
    names = ["a", "b", "c", "d"]
    fork = rng.random() < 0.4
    way = rng.choice(["function", "frame", "frame", "frame", "series"])
    sessions = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        parts = []
        cols = sorted(rng.sample(names, rng.randrange(1, 4))) if way != "series" else ["a"]
        if fork and sessions:
            cols = sessions[0]["parts"][0]["cols"]
        for k in range(rng.randrange(1, 5)):
            if k and way == "frame" and rng.random() < 0.35:
                cols = rng.sample(names, rng.randrange(1, 5))
            parts.append({
                "n": rng.randrange(1, 7), "cols": list(cols), "crash": rng.random() < 0.35, "again": rng.random() < 0.3, "remade": rng.random() < 0.3,
                "ro": rng.random() < 0.2, "bad": rng.random() < 0.15, "order": rng.choice("CCF"),
            })
        if fork and sessions:
            parts[0] = dict(sessions[0]["parts"][0])
        T = sum(p["n"] for p in parts)
        style = rng.choice(["sparse", "burst", "none", "start"])
        missing = []
        for t in range(T):
            for j in range(4):
                if style == "sparse" and rng.random() < 0.3 or style == "start" and t < 3 and rng.random() < 0.7:
                    missing.append([t, j])
        if style == "burst":
            a = rng.randrange(T)
            missing += [[t, j] for t in range(a, min(T, a + rng.randrange(2, 8))) for j in rng.sample(range(4), rng.randrange(1, 5))]
        sessions.append({"parts": parts, "missing": missing, "vseed": rng.randrange(10**9), "inf": [rng.randrange(T), rng.randrange(4)] if rng.random() < 0.1 and way == "frame" else None})
    if compiled:  # compiling takes seconds
        fork = False
        sessions = sessions[:1]
        sessions[0]["parts"] = [{**p, "again": False, "bad": False, "remade": False} for p in sessions[0]["parts"][-2:]]
    return {
        "way": way, "flat": rng.random() < 0.3, "fork": fork, "sessions": sessions, "compiled": compiled, "threads": rng.random() < 0.6 and not compiled,
        "decay": rng.choice([["com", 10], ["com", 2.5], ["com", 0.5], ["alpha", 0.3], ["alpha", 0.9]]), "adjust": rng.choice([True, False, "linear"]),
        "ignore_na": rng.random() < 0.5, "min_periods": rng.choice([0, 0, 1, 2, 5]), "initial": rng.choice([None, None, None, 0.0, 0.5]),
        "dtype": rng.choice(["f8", "f8", "f8", "f4", "i8"]),
        "sched": race.schedule(rng, 0.3),
    }


def settings(sc):
    kw = {sc["decay"][0]: sc["decay"][1], "adjust": sc["adjust"], "ignore_na": sc["ignore_na"], "min_periods": sc["min_periods"]}
    if sc["initial"] is not None:
        kw["initial_value"] = sc["initial"]
    return kw


_STEPS = {}


def module_alone(sc):
    """The streaming module over one series: list of values -> list of means."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.modules import EWMA

    # decay and initial value are a parameter and a state of the module: one compiled step serves them all
    key = (str(sc["adjust"]), sc["ignore_na"], sc["min_periods"])
    tf = hk.transform_with_state(lambda x: EWMA(**settings(sc))(x))
    if key not in _STEPS:
        _STEPS[key] = jax.jit(tf.apply)
    step = _STEPS[key]

    def alone(values):
        params, state = tf.init(None, jnp.asarray(float(values[0])))
        out = []
        for v in values:
            y, state = step(params, state, None, jnp.asarray(float(v)))
            out.append(float(y))
        return out

    return alone


def table(sc, s):
    """Values of the four series at every step."""
    from sim.core import rng_for

    T = sum(p["n"] for p in s["parts"])
    g = np.random.default_rng(rng_for(s["vseed"], "obs").randrange(2**32))
    x = np.round(g.normal(size=(T, 4)) * 2 + 3, 2)
    if sc["dtype"] == "i8":
        return np.round(x * 3)
    x = x.astype(sc["dtype"]).astype("f8")
    for t, j in s["missing"]:
        if t < T:
            x[t, j] = np.nan
    if s["inf"] and s["inf"][0] < T:
        x[s["inf"][0], s["inf"][1]] = np.inf
    return x


NAMES = "abcd"


def expected(sc, x, parts, alone):
    """Per part the table the module gives, and the column set it is judged on."""
    want, starts, joined = [], {}, []
    t = 0
    for p in parts:
        n, cols = p["n"], p["cols"]
        starts = {c: starts.get(c, t) for c in cols}
        joined.append([c for c in cols if t and starts[c] == t])
        block = np.full((n, len(cols)), np.nan)
        judged = []
        for k, c in enumerate(cols):
            v = x[starts[c] : t + n, NAMES.index(c)]
            judged.append(not np.isinf(v).any())
            if judged[-1]:
                block[:, k] = alone(v)[t - starts[c] :]
        want.append((block, judged))
        t += n
    return want, joined


class Part:
    """One part's data, as it is handed over."""

    def __init__(self, sc, x, t, p):
        import pandas as pd

        cols = p["cols"]
        v = x[t : t + p["n"], [NAMES.index(c) for c in cols]].astype(sc["dtype"])
        v = np.array(v, order=p["order"])
        if p["ro"]:
            v.setflags(write=False)
        index = pd.date_range("2020-01-01", periods=t + p["n"], freq="D")[t:]
        if sc["way"] == "function":
            self.data = v[:, 0] if sc["flat"] and len(cols) == 1 else v
        elif sc["way"] == "frame":
            self.data = pd.DataFrame(v, index=index, columns=cols)
        else:
            self.data = pd.Series(v[:, 0], index=index, name="a")

    def copy(self):
        return self.data.copy()


def caller(sc):
    """(data, state) -> (result, state), the way a user calls the kernel."""
    from wax.numba import ewma_numba as N

    if sc["way"] == "function":
        return N.ewma(**settings(sc))
    N.register_wax_numba()

    def call(data, state):
        return data.wax_numba.ewm(return_state=True, **settings(sc)).mean(state=state)

    return call


def freeze(state):
    """The saved state as a user may hold it: read-only memory."""
    if hasattr(state, "_fields"):
        out = []
        for v in state:
            v = np.array(v)
            v.setflags(write=False)
            out.append(v)
        return type(state)(*out)
    return state


def plain(v):
    if hasattr(v, "_fields"):
        return tuple(np.array(q) for q in v)
    return v if v is None else v.copy()


def differ(a, b):
    import pandas as pd

    if a is None or b is None:
        return (a is None) != (b is None)
    if isinstance(a, pd.DataFrame | pd.Series):
        return not a.equals(b) or list(a.index) != list(b.index)
    if isinstance(a, tuple):
        return any(p.dtype != q.dtype or not np.array_equal(p, q, equal_nan=True) for p, q in zip(a, b))
    return not np.array_equal(a, b, equal_nan=True)


def run(sc, ctx):
    import jax
    import numba

    jax.config.update("jax_enable_x64", True)
    was = numba.config.DISABLE_JIT
    numba.config.DISABLE_JIT = 0 if sc["compiled"] else 1
    try:
        together(sc, ctx)
    finally:
        numba.config.DISABLE_JIT = was


def together(sc, ctx):
    from sim import seams
    from sim.race import Race

    where = sc["way"]
    ctx.probe("compiled" if sc["compiled"] else "interpreted")
    ctx.probe(where)
    for name, on in (("integer", sc["dtype"] == "i8"), ("linear", sc["adjust"] == "linear"), ("min-periods", sc["min_periods"]), ("initial", sc["initial"] is not None), ("infinite", any(s["inf"] for s in sc["sessions"]))):
        if on:
            ctx.probe(name)
    alone = module_alone(sc)
    with ctx.guard("call", where):
        call = caller(sc)
    tol = dict(rtol=2e-4, atol=2e-4) if sc["dtype"] == "f4" else dict(rtol=1e-8, atol=1e-9)
    race = Race(ctx, sc, env=seams.Env())
    first = {}  # what the first part gave to the first session, shared when sessions are forked
    plans = []
    for i, s in enumerate(sc["sessions"]):
        x = table(sc, s)
        parts = s["parts"]
        if sc["fork"] and i:
            # the same beginning as the first session's: x is put after it
            x0 = table(sc, sc["sessions"][0])
            n0 = sc["sessions"][0]["parts"][0]["n"]
            parts = [sc["sessions"][0]["parts"][0]] + parts[1:]
            T = sum(p["n"] for p in parts)
            x = np.concatenate([x0[:n0], np.resize(x, (T, 4))[n0:]])
        want, joined = expected(sc, x, parts, alone)
        plans.append((x, parts, want, joined))
    ctx.sim_time = float(sum(sum(p["n"] for p in parts) for _, parts, _, _ in plans))
    lost = sum(int(np.isnan(x).sum()) for x, _, _, _ in plans)
    ctx.fault("lost-observation", lost)
    ctx.nontrivial = any(len(parts) > 1 for _, parts, _, _ in plans) and bool(lost or sc["dtype"] == "i8")

    def judge(i, k, res, part, want, joined, state):
        x, parts, _, _ = plans[i]
        block, judged = want[k]
        p = parts[k]
        kind = "joined" if joined[k] else "value"
        if sc["way"] != "function":
            ctx.check(type(res) is type(part.data) and res.index.equals(part.data.index), "labels", f"session {i} part {k}: another container or index", where)
            if sc["way"] == "frame":
                if not ctx.check(list(res.columns) == p["cols"], "labels", f"session {i} part {k}: columns {list(res.columns)} of {p['cols']}", where):
                    return
            else:
                ctx.check(res.name == "a", "labels", f"session {i} part {k}: the series' name is {res.name!r}", where)
        elif not ctx.check(np.shape(res) == np.shape(part.data), "shape", f"session {i} part {k}: shape {np.shape(res)} of {np.shape(part.data)}", where):
            return
        got = np.asarray(res, "f8").reshape(block.shape)
        for c, name in enumerate(p["cols"]):
            if judged[c]:
                ctx.equal(got[:, c], block[:, c], kind if name in joined[k] or kind == "value" else "value", f"session {i} part {k} series {name} (settings {settings(sc)})", where, **tol)
        ctx.logv(f"{i}.{k}", got)

    def body(i):
        def go():
            x, parts, want, joined = plans[i]
            mine, state, t = call, None, 0
            for k, p in enumerate(parts):
                part = Part(sc, x, t, p)
                if k == 0 and sc["fork"] and first and "state" in first:
                    state = first["state"]
                    ctx.probe("fork")
                    ctx.fault("forked")
                    t += p["n"]
                    continue
                if k and p["crash"]:
                    import pickle

                    state = pickle.loads(pickle.dumps(state))
                    ctx.fault("crash")
                    ctx.probe("crash")
                if k and (p["crash"] or p["remade"]):
                    mine = caller(sc)
                if k and p["ro"]:
                    state = freeze(state)
                    ctx.probe("read-only")
                if k:
                    old = parts[k - 1]["cols"]
                    if joined[k]:
                        ctx.probe("joined")
                        ctx.fault("series-joins")
                    if set(old) - set(p["cols"]):
                        ctx.probe("left")
                        ctx.fault("series-leaves")
                    if not joined[k] and [c for c in old if c in p["cols"]] != p["cols"]:
                        ctx.probe("reordered")
                kept, given = plain(state), part.copy()
                if p["bad"]:
                    ctx.probe("bad-call")
                    ctx.fault("bad-call")
                    bad = part.data.astype(object) if sc["way"] != "function" else np.full((2, 2, 2), 1.0)
                    if sc["way"] == "frame":
                        bad.iloc[-1, -1] = "?"
                    elif sc["way"] == "series":
                        bad.iloc[-1] = "?"
                    race.op("bad", lambda: mine(bad, state))
                    ctx.check(not differ(plain(state), kept), "state-changed", f"session {i} part {k}: a failing call changed the saved state", where)
                o = race.op(f"{i}.{k}", lambda: mine(part.data, state))
                if o["exc"] is not None:
                    with ctx.guard("call", where):
                        raise o["exc"]
                res, new = o["res"]
                judge(i, k, res, part, want, joined, new)
                ctx.check(not differ(plain(state), kept), "state-changed", f"session {i} part {k}: the saved state it was resumed from has been changed", where)
                ctx.check(not differ(part.data, given), "data-changed", f"session {i} part {k}: its data have been changed", where)
                if p["again"] and not ctx.violations:
                    ctx.fault("resumed-again")
                    o = race.op(f"{i}.{k}", lambda: mine(part.data, state))
                    if o["exc"] is not None:
                        with ctx.guard("call", where):
                            raise o["exc"]
                    judge(i, k, o["res"][0], part, want, joined, o["res"][1])
                ctx.state(where, repr(settings(sc)), sc["compiled"], sc["dtype"], min(t, 6), bool(np.isnan(x[t]).any()), bool(joined[k]), k > 0 and p["crash"], sc["fork"])
                state = new
                if k == 0 and i == 0 and sc["fork"]:
                    first["state"] = state
                t += p["n"]
                if ctx.violations:
                    return

        return go

    if sc["fork"] and len(plans) > 1:
        # the common beginning, before the sessions part
        x, parts, want, joined = plans[0]
        part = Part(sc, x, 0, parts[0])
        with ctx.guard("call", where):
            res, state = call(part.data, None)
        judge(0, 0, res, part, want, joined, state)
        first["state"] = state
    if sc["threads"] and len(plans) > 1:
        ctx.probe("threads")
        race.run([body(i) for i in range(len(plans))])
    else:
        race.run([lambda: [body(i)() for i in range(len(plans))]])
