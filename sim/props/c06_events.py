"""C06 - event gating and resets act on exactly the steps of their events."""

import numpy as np

RUNS = {"quick": 300, "thorough": 12000}
SEARCH = "gated modules, event and reset schedules (bursts, never, repeated), missing values, crash points and execution modes"
RULE = (
    "One run gates a module by a simulated event channel (events lost, repeated, in bursts, absent), or scans a stream with "
    "simulated reset requests, with crashes and resumes between steps. Haiku gates: every output and the inner state after "
    "every step equal those of the same module run alone over the event steps only. Flax gates: outputs are those of the "
    "ungated module at the last event. Reset scans: outputs equal separate runs started at the initial state after every "
    "reset. Non-trivial: an event step and an event-free step (or a reset) both occur."
)
STATE_MEASURE = "distinct (construct, inner module, event now, event before, number of events so far, missing value now, resumed)"
REAL = ["wax.modules.UpdateOnEvent and all Haiku modules", "wax.flax.core.streaming_transforms", "wax.flax.modules", "jax", "haiku", "flax"]
STUB = ["the event and reset channel", "the source of observations", "process crash (state read back from bytes)"]
ASSUMPTIONS = [
    "Flax gating holds back outputs only; that its inner state keeps advancing is documented",
    "a Flax reset takes effect after the step that requests it, as the tests have it; initialisation delivers its example observation",
]
PROBES = ["hk-gate", "flax-gate", "flax-reset", "crash", "never", "every-step", "nested", "learner", "two-gates", "mode-scan", "double-reset", "event-with-nan", "handed-over"]
SHRINK_LISTS = ["events", "crash", "plan"]
SHRINK_INTS = [("T", 2)]

HK = ["ewma", "ewma_adj", "buffer", "counter", "pair", "stateless", "nested", "vmap", "chain", "learner", "ohlc", "two", "rolling", "ewmvar", "lag_state", "gate_of_gate", "outside", "outside_only", "outside_deep", "optimizer", "feedback"]
FLAX = ["ewma", "buffer", "pair", "rolling", "chain", "counter", "lag"]


def gen(rng, idx, tier):
    fam = rng.choice(["hk", "hk", "hk", "flax-gate", "flax-reset"])
    T = rng.randrange(2, 14)
    style = rng.choice(["mixed", "mixed", "rare", "often", "burst", "never", "every", "first", "last"])
    p = {"mixed": 0.5, "rare": 0.15, "often": 0.85}.get(style, 0.0)
    ev = [t for t in range(T) if rng.random() < p]
    if style == "every":
        ev = list(range(T))
    if style == "first":
        ev = [0]
    if style == "last":
        ev = [T - 1]
    if style == "burst":
        a = rng.randrange(T)
        ev = list(range(a, min(T, a + rng.randrange(2, 5))))
    from sim.data import outages

    return {
        "fam": fam, "inner": rng.choice(HK if fam == "hk" else FLAX), "T": T, "events": ev, "events2": [t for t in range(T) if rng.random() < 0.5],
        "init": rng.choice([None, 0.0, -3.0]), "shape": rng.choice([[2], [2], [3], []]), "plan": outages(rng, T, rng.choice([[], ["gap"], ["gap", "dup"], ["burst"]])),
        "crash": sorted(set(rng.randrange(1, T) for _ in range(rng.randrange(0, 3)))) if T > 1 else [], "mode": rng.choice(["step", "step", "scan", "mixed"]),
        "style": style, "vseed": rng.randrange(10**9), "etype": rng.choice(["bool", "bool", "np", "int"]),
    }


# ------------------------------------------------------------------ Haiku


def hk_inner(name):
    """A fresh inner module (inside a transform)."""
    import haiku as hk
    import jax.numpy as jnp
    import optax

    import wax.modules as M
    from wax.modules.online_supervised_learner import OnlineSupervisedLearner
    from wax.modules.optax_optimizer import OptaxOptimizer
    from wax.stateful import vmap_lift_with_state

    class Pair(hk.Module):
        def __call__(self, x):
            return M.EWMA(com=2.0)(x), {"lag": M.Lag(1)(x)}

    class Affine(hk.Module):
        def __call__(self, x):
            return 2.0 * x + 1.0

    class Nested(hk.Module):
        def __call__(self, x):
            a = Pair(name="left")(x)
            b = Pair(name="right")(x * 2)
            return a[0] + b[0] - M.EWMA(com=5.0)(x)

    class Chain(hk.Module):
        def __call__(self, x):
            x = M.Ffill()(x)
            return M.EWMA(com=2.0)(M.Diff()(x)) + M.RollingMean(2)(x)

    class Lifted(hk.Module):
        def __call__(self, x):
            return vmap_lift_with_state(lambda v: M.EWMA(com=2.0)(v))(x)

    class Learner(hk.Module):
        def __call__(self, x):
            x = jnp.nan_to_num(x)
            return OnlineSupervisedLearner(lambda v: hk.Linear(1, name="lin")(v), optax.adam(0.05), lambda y, p: ((y - p) ** 2).mean())(x, x[:1])

    class Bars(hk.Module):
        def __call__(self, x):
            return tuple(M.OHLC()(x, reset_on=(x > 3.5).any()))

    class Counting(hk.Module):
        def __call__(self, x):
            return M.Counter()()

    class LagState(hk.Module):
        def __call__(self, x):
            out, st = M.Lag(2, return_state=True)(x)
            return out, tuple(st)

    class Gate(hk.Module):
        """A gate inside a gate: counts only when the data allows it."""

        def __call__(self, x):
            return M.UpdateOnEvent(M.EWMA(com=2.0), initial_output_value=0.0)((jnp.nan_to_num(x) > 3.0).any(), x)

    class Scaled(hk.Module):
        """Uses a module that was built outside and handed over; counts its calls itself."""

        def __init__(self, inner, count=True, name=None):
            super().__init__(name=name)
            self.inner, self.count = inner, count

        def __call__(self, x):
            n = 1.0
            if self.count:
                n = hk.get_state("calls", [], init=lambda *_: jnp.ones(()))
                hk.set_state("calls", n + 1)
            return self.inner(x) * n

    class Fit(hk.Module):
        """An optimiser around a model built outside: the optimiser is handed the model."""

        def __init__(self, step, name=None):
            super().__init__(name=name)
            self.step = step

        def __call__(self, x):
            x = jnp.nan_to_num(x)
            return self.step(x, x[0])

    class Agent(hk.Module):
        """Acts on the mean of what it has seen."""

        def __call__(self, obs):
            return M.EWMA(com=3.0)(obs), {"seen": M.Counter()().astype(float)}

    class Env(hk.Module):
        """Rewards an action by the next observation and shows the change of its data."""

        def __call__(self, action, raw):
            return -((action - raw) ** 2).sum(), M.Ffill()(raw) - M.Lag(1)(raw), {"mean": M.EWMA(com=2.0)(raw)}

    class Predict(hk.Module):
        def __call__(self, x, y):
            w = hk.get_parameter("w", x.shape, init=jnp.zeros)
            return ((y - (w * x).sum()) ** 2).mean(), {"mean": M.EWMA(com=2.0)(x)}

    return {
        "outside": lambda: Scaled(M.EWMA(com=2.0, name="given")),
        "outside_only": lambda: Scaled(M.EWMA(com=2.0, name="given"), count=False),
        "outside_deep": lambda: Scaled(Scaled(Chain(name="given"), name="middle"), count=False),
        "optimizer": lambda: Fit(M.OnlineOptimizer(lambda x, y: Predict(name="model")(x, y), OptaxOptimizer(optax.adam(0.05)))),
        "feedback": lambda: M.GymFeedback(Agent(name="agent"), Env(name="env"), return_obs=True, return_action=True),
        "ewma": lambda: M.EWMA(com=2.0),
        "ewma_adj": lambda: M.EWMA(com=2.0, adjust=False, ignore_na=True),
        "buffer": lambda: M.Buffer(2),
        "counter": lambda: Counting(),
        "pair": lambda: Pair(),
        "stateless": lambda: Affine(),
        "nested": lambda: Nested(),
        "vmap": lambda: Lifted(),
        "chain": lambda: Chain(),
        "learner": lambda: Learner(),
        "ohlc": lambda: Bars(),
        "rolling": lambda: M.RollingMean(3),
        "ewmvar": lambda: M.EWMVar(com=2.0),
        "lag_state": lambda: LagState(),
        "gate_of_gate": lambda: Gate(),
    }[name]()


def run_hk(sc, ctx, d, e, e2):
    import haiku as hk
    import jax

    import wax.modules as M
    from sim.session import drive

    T, name = sc["T"], sc["inner"]
    kw = {} if sc["init"] is None else {"initial_output_value": sc["init"]}
    if name in ("counter", "lag_state") and sc["init"] is None:
        kw = {"initial_output_value": 0}
    two = name == "two"
    inner = "pair" if two else name

    def build():
        def f(ev, ev2, x):
            y = M.UpdateOnEvent(hk_inner(inner), **kw)(ev, x)
            if two:
                return y, M.UpdateOnEvent(hk_inner("pair"), **kw)(ev2, x)
            return y

        return f

    states = {}
    steps = [(e[t], e2[t], d["x"][t]) for t in range(T)]
    # also in one piece step by step, to see the inner state after each step
    _, outs, params, final = drive(ctx, "hk", build, steps, sc["crash"], sc["mode"], on_state=lambda t, s: states.__setitem__(t, jax.device_get(s)))

    def alone():
        return lambda x: hk_inner(inner)(x)

    tf = hk.transform_with_state(alone())
    import jax.numpy as jnp

    p0, s0 = tf.init(jax.random.PRNGKey(0), jnp.asarray(d["x"][0]))
    p0 = relabel(params, p0)
    step = jax.jit(tf.apply)

    def reference(ev):
        s, last, res = s0, None, []
        for t in range(T):
            if ev[t]:
                last, s = step(p0, s, None, jnp.asarray(d["x"][t]))
                last = jax.device_get(last)
            res.append((last, jax.device_get(s)))
        return res

    init = kw.get("initial_output_value", np.nan)
    refs = [reference(e)] + ([reference(e2)] if two else [])
    where = f"gate-{name}"
    for t in range(T):
        out = outs[t] if two else (outs[t],)
        ctx.logv(f"{t}", out)
        for k, ref in enumerate(refs):
            want = ref[t][0]
            if want is None:
                want = jax.tree_util.tree_map(lambda a: np.full(np.shape(a), init, np.asarray(a).dtype), out[k])
            ctx.equal(out[k], want, "output", f"{where} gate {k} step {t}, events {list(np.flatnonzero(e[: t + 1]))}", where)
        if t in states and not two:
            got = inner_state(states[t], s0)
            if got is not None:
                ctx.equal(got, plain(ref_state(refs[0], t, s0)), "state", f"{where} inner state after step {t}, event {bool(e[t])}", where)
    if not two:
        got = inner_state(jax.device_get(final), s0)
        if got is not None:
            ctx.equal(got, plain(refs[0][-1][1]), "state", f"{where} final inner state", where)


def ref_state(ref, t, s0):
    return ref[t][1]


def plain(s):
    return {m: dict(v) for m, v in s.items()}


def inner_state(s, s0):
    """The part of the gated program's state that belongs to the inner module, under its own names."""
    out = {m: dict(s[m]) for m in s0 if m in s}
    if len(out) == len(s0):
        return out
    byleaf = {}
    for m0 in s0:
        cand = [m for m in s if m == m0 or m.endswith("/" + m0)]
        if len(cand) != 1:
            return None
        byleaf[m0] = dict(s[cand[0]])
    return byleaf


def relabel(params, p0):
    """Parameters of the gated program under the names of the module alone."""
    flat = {}
    for m in p0:
        cand = [q for q in params if q == m or q.endswith("/" + m)]
        flat[m] = dict(params[cand[0]]) if cand else dict(p0[m])
    return flat


# ------------------------------------------------------------------ Flax


def flax_fn(name):
    import wax.flax.modules as M

    def chain(x):
        return M.EWMA(com=2.0)(M.Diff()(M.Ffill()(x))) + M.RollingMean(2)(x)

    return {
        "ewma": lambda x: M.EWMA(com=2.0)(x),
        "buffer": lambda x: M.Buffer(3)(x),
        "pair": lambda x: (M.EWMA(com=2.0)(x), {"lag": M.Lag(1)(x)}),
        "rolling": lambda x: M.RollingMean(2)(x),
        "chain": chain,
        "counter": lambda x: M.Counter()() + 0 * x.astype("int32").sum().astype("uint32"),
        "lag": lambda x: M.Lag(2)(x),
    }[name]


def run_flax_gate(sc, ctx, d, e):
    import jax

    from sim.session import drive
    from wax.flax.core.streaming_transforms import streaming_transform_with_state, update_on_event

    T, name = sc["T"], sc["inner"]
    kw = {} if sc["init"] is None else {"initial_output_value": sc["init"]}
    if name == "counter":
        kw = {"initial_output_value": 0}
    fn = flax_fn(name)

    def build():
        return streaming_transform_with_state(update_on_event(event_fn=lambda x, ev: ev, **kw)(lambda x, ev: fn(x)))

    steps = [(d["x"][t], e[t]) for t in range(T)]
    first, outs, params, _ = drive(ctx, "flax", build, steps, sc["crash"], sc["mode"])
    # the ungated function over the same observations
    _, free, _, _ = drive(ctx, "flax", lambda: streaming_transform_with_state(fn), [(x,) for x, _ in steps], (), "step")
    p, s = streaming_transform_with_state(fn).init(jax.random.PRNGKey(0), d["x"][0])
    where = f"flaxgate-{name}"
    last = None
    if e[0]:
        # the output of the first observation is only seen through the gate
        last = "init"
    init = kw.get("initial_output_value", np.nan)
    held0 = None
    for t in range(first, T):
        y = outs[t - first]
        ctx.logv(f"{t}", y)
        if e[t]:
            last = free[t - first]
        if last is None:
            want = jax.tree_util.tree_map(lambda a: np.full(np.shape(a), init, np.asarray(a).dtype), y)
        elif last == "init" if isinstance(last, str) else False:
            held0 = want = y if held0 is None else held0
        else:
            want = last
        ctx.equal(y, want, "output", f"{where} step {t}", where)


def run_flax_reset(sc, ctx, d, e):
    import jax
    import jax.numpy as jnp

    from sim.data import pickled
    from wax.flax.core.streaming_transforms import streaming_scan, streaming_transform_with_state

    T, name = sc["T"], sc["inner"]
    fn = flax_fn(name)
    flag = e.astype(np.float64)
    shape = np.shape(d["x"][0])

    def split(v):
        return v["x"]

    make = lambda: streaming_scan(lambda v: fn(split(v)), reset_on=lambda v: v["r"] > 0)  # noqa: E731
    inputs = {"x": jnp.asarray(d["x"]), "r": jnp.asarray(flag)}
    at = lambda t: {k: v[t] for k, v in inputs.items()}  # noqa: E731
    ss = make()
    params, s0 = ss.init(jax.random.PRNGKey(0), at(0))
    where = f"flaxreset-{name}"
    outs, s = [], s0
    start = 0
    use_key = sc["vseed"] % 2
    for stop in sorted(set(sc["crash"]) | {T}):
        kw = {"initial_state": s0} if start else {}
        if use_key:
            kw["rng"] = jax.random.PRNGKey(3)
        ys, s = ss.scan_apply({k: v[start:stop] for k, v in inputs.items()}, params, s, **kw)
        ys = jax.device_get(ys)
        outs += [jax.tree_util.tree_map(lambda a: np.asarray(a)[i], ys) for i in range(stop - start)]
        start = stop
        if stop < T:
            ctx.fault("crash")
            params, s, s0 = pickled(params), pickled(s), pickled(s0)
            ss = make()
    # reference: an ordinary run that starts again from s0 after every reset
    base = streaming_transform_with_state(lambda v: fn(split(v)))
    step = jax.jit(base.apply)
    r = s0
    for t in range(T):
        y, r = step(params, r, None, at(t))
        ctx.logv(f"{t}", outs[t])
        ctx.equal(outs[t], y, "output", f"{where} step {t}, resets at {sc['events']}, cuts {sc['crash']}", where)
        if e[t]:
            r = s0
    ctx.equal(jax.device_get(s), jax.device_get(r), "state", f"{where} final state", where)
    if not use_key:
        # without variables the scan initialises itself from its own data
        ys, _ = make().scan_apply(inputs)
        ys2, _ = make().scan_apply(inputs, rng=jax.random.PRNGKey(0))
        ctx.equal(jax.device_get(ys2), jax.device_get(ys), "output", f"{where} self-initialised", where)
        p1, s1 = make().init(jax.random.PRNGKey(0), at(0))
        want, _ = make().scan_apply(inputs, p1, s1)
        ctx.equal(jax.device_get(ys), jax.device_get(want), "output", f"{where} self-initialised against initialised", where)


# ------------------------------------------------------------------ the run


def run(sc, ctx):
    import jax

    from sim.data import make

    jax.config.update("jax_enable_x64", True)
    T = sc["T"]
    shape = [2] if sc["inner"] in ("learner", "vmap", "optimizer") and not sc["shape"] else sc["shape"]
    d = make(sc["vseed"], T, shape, sc["plan"], ctx)
    sc["crash"] = [c for c in sc["crash"] if c < T]
    ev = np.array([t in sc["events"] for t in range(T)])
    ev2 = np.array([t in sc["events2"] for t in range(T)])
    e = ev.astype(np.int32) if sc["etype"] == "int" and sc["fam"] == "hk" else ev
    ctx.sim_time = float(T)
    ctx.nontrivial = bool(ev.any()) and not bool(ev.all())
    ctx.fault("event", int(ev.sum()))
    ctx.fault("event-withheld", int((~ev).sum()))
    ctx.probe({"hk": "hk-gate", "flax-gate": "flax-gate", "flax-reset": "flax-reset"}[sc["fam"]])
    for c, p in [(not ev.any(), "never"), (ev.all(), "every-step"), (sc["inner"] in ("nested", "gate_of_gate"), "nested"), (sc["inner"] in ("learner", "optimizer"), "learner"), (sc["inner"].startswith("outside") or sc["inner"] in ("optimizer", "feedback"), "handed-over"), (sc["inner"] == "two", "two-gates"), (sc["mode"] != "step", "mode-scan"), (sc["crash"], "crash")]:
        if c:
            ctx.probe(p)
    if (ev[1:] & ev[:-1]).any() and sc["fam"] == "flax-reset":
        ctx.probe("double-reset")
    miss = np.isnan(d["x"]).reshape(T, -1).any(1)
    if (ev & miss).any():
        ctx.probe("event-with-nan")
    for t in range(T):
        ctx.state(sc["fam"], sc["inner"], bool(ev[t]), bool(t and ev[t - 1]), min(int(ev[: t + 1].sum()), 5), bool(miss[t]), any(c <= t for c in sc["crash"]))
    if sc["fam"] == "hk":
        run_hk(sc, ctx, d, e, ev2)
    elif sc["fam"] == "flax-gate":
        run_flax_gate(sc, ctx, d, ev)
    else:
        run_flax_reset(sc, ctx, d, ev)
