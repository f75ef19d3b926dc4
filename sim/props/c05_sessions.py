"""C05 - concurrent and interleaved streaming sessions never influence each other."""

import numpy as np

RUNS = {"quick": 110, "thorough": 9000}
RULE = (
    "One run starts 2-4 streaming sessions (Haiku and Flax modules step by step, in scans, through the unroll wrappers and the "
    "lifts, streams merged live, prepared data sets, accessors), in simulated threads that can be preempted at every line or "
    "instruction of the package, or interleaved operation by operation in one thread, with or without shared functions, "
    "modules, transformed pairs, wrappers, streams and containers. Sessions are given garbage, interrupted at an arbitrary line, "
    "abandoned or crash and restart. Every result of every session is compared bit by bit with the session run alone on objects "
    "of its own, before and after. Non-trivial: two sessions overlapped."
)
STATE_MEASURE = "distinct (session kinds, sharing, fault) sets, and code locations at which a session was preempted or interrupted"
REAL = ["wax.unroll", "wax.stateful", "wax.stream", "wax.accessors", "wax.compile", "wax.flax.core", "wax.modules", "wax.flax.modules", "haiku", "flax", "jax"]
STUB = ["thread scheduling (seeded, one thread at a time)", "a lock of the user around each compiled function that threads share (tracing in two threads at once is JAX's affair)"]
ASSUMPTIONS = ["a compiled function is traced by one thread at a time"]
PROBES = ["threads", "interleaved", "shared", "own", "shared-function", "interrupted", "garbage", "abandoned", "restarted", "crash", "later-session", "jit", "no-compilation", "scan", "lift", "stream", "accessor", "flax", "haiku", "same-data", "mixed", "first-session", "text", "other-fill"]
SHRINK_LISTS = ["rounds", "sessions", "sessions.*.faults", "rounds.*.decisions"]
SHRINK_INTS = [("sessions.*.T", 1)]
HANG_S = 90
FRESH_RUNS = True  # what one run leaves behind in its process is not found by the next
HASH_SENSITIVE = True  # streams are merged in the order of a set of names: the hash seed is part of the schedule

HK = ["hk-step", "hk-step", "hk-step", "hk-scan", "hk-scan", "hk-unroll", "hk-lift", "hk-vlift"]
FL = ["fl-step", "fl-step", "fl-step", "fl-direct", "fl-scan", "fl-scan", "fl-unroll", "fl-direct", "fl-sscan"]
ST = ["merge", "merge", "prepare", "prepare", "prepare1", "accessor"]


def gen(rng, idx, tier):
    from sim import race, zoo_flax, zoo_haiku
    from sim.data import outages

    share = rng.choice(["none", "function", "all", "all", "all"])
    family = rng.choice(["hk", "fl", "st", "mixed"]) if share == "none" else rng.choice(["hk", "hk", "fl", "fl", "st", "st"])
    if family == "st" and share != "none" and rng.random() < 0.5:
        share = "none"  # streams with settings of their own
    kinds = {"hk": HK, "fl": FL, "st": ST, "mixed": HK + FL + ST}[family]
    n = rng.choice([2, 2, 3, 3, 4])
    kind0 = rng.choice(kinds)
    if kind0 == "prepare1" and family == "st" and rng.random() < 0.8:
        share = "all"  # one stream without settings serves data sets of several time dimensions
    module = {}
    sessions = []
    names = {"hk": sorted(k for k, e in zoo_haiku.ZOO.items() if not e["random"]), "fl": sorted(k for k, e in zoo_flax.ZOO.items() if not e["random"])}
    shape_v = [3]
    shape = rng.choice([[], [3], [3], [2, 2]])
    vseed = rng.randrange(10**9)
    same = rng.random() < 0.25
    opt0 = rng.randrange(16)
    for i in range(n):
        kind = kind0 if rng.random() < 0.75 or family == "st" and share == "all" else rng.choice(kinds)
        lib = kind[:2]
        if lib in names:
            if share == "none" or lib not in module:
                name = rng.choice(names[lib])
                zoo = (zoo_haiku if lib == "hk" else zoo_flax).ZOO
                module[lib] = (name, rng.randrange(len(zoo[name]["opts"])))
            name, opt = module[lib]
            if lib == "fl" and name == "stream_fn" and rng.random() < 0.5:
                kind = "fl-sscan"
            elif name == "counter" and kind in ("fl-scan", "fl-unroll"):
                kind = "fl-step"
            elif kind == "fl-sscan" or kind == "fl-direct" and name in ("stream_fn", "streaming_optimizer"):
                kind = rng.choice(["fl-step", "fl-scan", "fl-unroll"])
            zoo = (zoo_haiku if lib == "hk" else zoo_flax).ZOO
            shp = shape_v if zoo[name]["vec"] else shape
        else:
            opt0 = opt0 if share != "none" else rng.randrange(16)
            name, opt, shp = "", opt0, rng.choice([[], [2]])
        heavy = "scan" in kind or "unroll" in kind or "lift" in kind
        T = rng.choice([2, 4]) if heavy else rng.randrange(2, 7)
        if lib not in names and rng.random() < 0.5:
            T = 4
        mine = vseed if same or kind == "accessor" and share == "all" else rng.randrange(10**9)
        if kind == "accessor" and share == "all":
            T = 3
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            faults.append([rng.choice(["interrupt", "interrupt", "garbage", "abandon", "restart", "crash"]), rng.randrange(0, T + 1), rng.choice([0, rng.randrange(0, 40), rng.randrange(0, 400)])])
        sessions.append({
            "kind": kind, "module": name, "opt": opt, "shape": shp, "T": T,
            "vseed": mine, "key": rng.randrange(100), "faults": faults,
            "plan": outages(rng, T, [k for k in ("gap", "dup") if rng.random() < 0.4]),
        })
    jit = rng.random() < 0.25
    heavy = jit or any(k in s["kind"] for s in sessions for k in ("scan", "unroll", "lift", "prepare", "accessor"))
    threads = rng.random() < 0.75
    nojit = heavy and rng.random() < 0.6
    pure = rng.randrange(n) if family == "st" or rng.random() < 0.35 else None
    return {
        "pristine": pure, "nojit": nojit, "sessions": sessions, "share": share, "threads": threads, "jit": jit,
        "x64": rng.random() < 0.6, "order": rng.randrange(10**9), "rounds": [dict(race.schedule(rng, 0.35), hot=rng.choice([None, 0.05, 0.15, 0.3])) for _ in range(1 if heavy and not nojit else 6 if threads else 3)], "acc": rng.choice(["ds", "da", "df", "se"]),
    }


class Interrupted(Exception):
    """What an asynchronous interruption of a session raises in it."""


class Lane:
    """What one session shares with others of the same kind."""

    def __init__(self, sc, s):
        self.objs = {}
        self.sc = sc

    def get(self, key, make):
        if key not in self.objs:
            self.objs[key] = make()
        return self.objs[key]


def guarded(fn):
    """A compiled function behind a lock of the user."""
    from sim.sched import SimRLock

    lock = SimRLock()

    def call(*a):
        with lock:
            return fn(*a)

    return call


# ------------------------------------------------------------------ objects


def build_objects(sc, s, fn=None):
    """Everything a session of this kind works with: fn is the user's function or module."""
    import haiku as hk
    import jax

    from sim import zoo_flax, zoo_haiku

    kind = s["kind"]
    jit = sc["jit"]
    o = {}
    if kind.startswith("hk"):
        from wax.compile import jit_init_apply
        from wax.stateful import unroll_lift_with_state, vmap_lift_with_state
        from wax.unroll import unroll, unroll_transform_with_state

        e = zoo_haiku.ZOO[s["module"]]
        o["fn"] = fn if fn is not None else e["build"](e["opts"][s["opt"] % len(e["opts"])])
        f = o["fn"]
        if kind == "hk-lift":
            lift = unroll_lift_with_state(f)
            f = lambda d: lift(d)  # noqa: E731
        elif kind == "hk-vlift":
            vl = vmap_lift_with_state(f)
            f = lambda d: vl(d)  # noqa: E731
        tf = hk.transform_with_state(f)
        o["tf"] = tf
        if kind == "hk-scan":
            tf = unroll_transform_with_state(tf if s["key"] % 2 else f, dynamic=s["opt"] % 3 != 0)
        o["unroll"] = unroll(o["tf"], return_final_state=True, rng=jax.random.PRNGKey(7), dynamic=s["opt"] % 3 != 0)
        if jit and kind != "hk-unroll":
            tf = jit_init_apply(tf)
        o["init"], o["apply"] = tf.init, tf.apply
    elif kind.startswith("fl"):
        from wax.flax.core.unroll import flax_unroll, flax_unroll_transform

        e = zoo_flax.ZOO[s["module"]]
        o["fn"] = fn if fn is not None else e["build"](e["opts"][s["opt"] % len(e["opts"])])
        m = o["fn"]
        tf = zoo_flax.transformed(m)
        dynamic = e["trace"] and s["key"] % 3 != 0
        if kind == "fl-scan":
            tf = flax_unroll_transform(tf, dynamic=dynamic)
        o["unroll"] = flax_unroll(zoo_flax.transformed(m), return_final_state=True, rng=jax.random.PRNGKey(7), dynamic=dynamic)
        o["init"], o["apply"] = tf.init, tf.apply
        if jit and e["trace"] and kind in ("fl-step", "fl-scan", "fl-sscan"):
            o["apply"] = jax.jit(tf.apply)
    else:
        from wax.stream import Stream

        kw = dict(local_time="loc", ffills={"s0": True} if s["opt"] & 1 else {}, buffer_maxlen={"s0": 3} if s["opt"] & 2 else {}, verbose=False, pbar=False)
        if s["opt"] & 8 and s["opt"] & 2:
            kw["buffer_dtype_init_values"] = {t: -7 for t in (np.float64, np.float32, np.int64, np.int32)}
        if kind == "merge":
            o["stream"] = Stream(trace=bool(s["opt"] & 4), **kw)
        elif kind == "prepare":
            o["stream"] = Stream(**kw)
        elif kind == "prepare1":
            o["stream"] = Stream(verbose=False, pbar=False)
        else:
            from wax.accessors import register_wax_accessors

            register_wax_accessors()
            o["data"] = container(sc, s)
            o["stream"] = o["data"].wax.stream(format_outputs=bool(s["opt"] & 4) and sc["acc"] != "ds")
    if sc["threads"]:
        for k in ("init", "apply"):
            if jit and k in o:
                o[k] = guarded(o[k])
    return o


def container(sc, s):
    import pandas as pd
    import xarray as xr

    g = np.random.default_rng(s["vseed"] % 2**32)
    T = s["T"]
    idx = pd.date_range("2020-01-01", periods=T, freq="D")
    x = np.round(g.normal(size=(T, 2)), 3)
    if sc["acc"] == "ds":
        return xr.Dataset({"a": (("time",), x[:, 0]), "b": (("time", "k"), x)}, coords={"time": idx, "k": ["u", "v"]})
    if sc["acc"] == "da":
        return xr.DataArray(x, dims=("time", "k"), coords={"time": idx, "k": ["u", "v"]})
    if sc["acc"] == "df":
        return pd.DataFrame(x, index=pd.Index(idx, name="time"), columns=pd.Index(["u", "v"], name="k"))
    return pd.Series(x[:, 0], index=pd.Index(idx, name="time"))


def dataset(s):
    import pandas as pd
    import xarray as xr

    g = np.random.default_rng(s["vseed"] % 2**32)
    T = s["T"]
    loc = pd.date_range("2020-01-01", periods=T, freq="h")
    n = int(g.integers(1, 2 * T + 1))
    s0 = np.sort(loc[0].value + g.integers(-3, T, size=n) * 1_800_000_000_000 * 2).astype("M8[ns]")
    x = np.round(g.normal(size=(T,) + tuple(s["shape"])), 3)
    y = np.round(g.normal(size=n), 3)
    ds = xr.Dataset(coords={"loc": loc, "s0": s0})
    ds["x"] = xr.DataArray(x, dims=("loc",) + tuple(f"d{i}" for i in range(len(s["shape"]))), coords={"loc": loc})
    ds["y"] = xr.DataArray(y, dims=("s0",), coords={"s0": s0})
    if s["kind"].startswith("prepare") and s["opt"] % 4:
        words = ["".join(chr(97 + int(c)) for c in g.integers(0, 26, size=2)) for _ in range(3)]
        ds["w"] = xr.DataArray(np.array([words[int(k)] for k in g.integers(0, 3, size=T)]), dims=("loc",), coords={"loc": loc})
        ds["when"] = xr.DataArray(loc + pd.Timedelta(int(g.integers(1, 9)), "D"), dims=("loc",), coords={"loc": loc})
    if s["kind"] == "prepare1":
        ds = ds.drop_vars(["y", "s0"]).rename({"loc": f"loc{s['vseed'] % 3}"})
    return ds


def inputs(s, x64):
    import jax.numpy as jnp

    from sim.data import make

    d = make(s["vseed"], s["T"] + 1, s["shape"], s["plan"])
    if not x64:
        d = {k: v.astype(np.float32) if v.dtype == np.float64 else v.astype(np.int32) if v.dtype == np.int64 else v for k, v in d.items()}
    return {k: jnp.asarray(v) for k, v in d.items()}


# ------------------------------------------------------------------ sessions


def ops_of(sc, s, objs, data):
    """The operations of a session: a list of functions of (objects, what went before) -> (result, carry)."""
    import jax
    from jax.tree_util import tree_map

    from sim import zoo_flax
    from sim.data import at, window

    kind, T = s["kind"], s["T"]
    key = jax.random.PRNGKey(s["key"])

    def args(d):
        if kind.startswith("hk"):
            return (d,)
        e = zoo_flax.ZOO[s["module"]]
        return e["args"](d, e["opts"][s["opt"] % len(e["opts"])])

    def seq(d, n):
        if kind.startswith("hk"):
            return (d,)
        rows = [args(at(d, t)) for t in range(n)]
        return tree_map(lambda *a: jax.numpy.stack(a), *rows) if rows[0] else ()

    ops = []
    if kind in ("hk-step", "fl-step"):
        ops.append(lambda o, c, bad: ((r := o["init"](key, *bad(args(at(data, 0))))), r))
        for t in range(T):
            def op(o, c, bad, t=t):
                y, st = o["apply"](c[0], c[1], None, *bad(args(at(data, t))))
                return (y, st), (c[0], st)

            ops.append(op)
    elif kind in ("hk-lift", "hk-vlift"):
        # the function sees a sequence (unroll) or lanes (vmap) at each step
        lanes = window(data, 0, 2)
        ops.append(lambda o, c, bad: ((r := o["init"](key, *bad((lanes,)))), r))
        for t in range(T):
            def op(o, c, bad, t=t):
                y, st = o["apply"](c[0], c[1], None, *bad((window(data, t, t + 2) if t + 2 <= T else lanes,)))
                return (y, st), (c[0], st)

            ops.append(op)
    elif kind in ("hk-scan", "fl-scan"):
        if kind == "fl-scan" and s["module"] == "counter":
            return None
        whole = seq(data, T)
        ops.append(lambda o, c, bad: ((r := o["init"](key, *bad(whole))), r))
        pts = sorted({0, T // 2, T})
        for a, b in zip(pts, pts[1:]):
            def op(o, c, bad, a=a, b=b):
                y, st = o["apply"](c[0], c[1], None, *bad(seq(window(data, a, b), b - a)))
                return (y, st), (c[0], st)

            ops.append(op)
    elif kind in ("hk-unroll", "fl-unroll"):
        if kind == "fl-unroll" and s["module"] == "counter":
            return None
        for a, b in ((0, T), (T - T // 2, T)):
            ops.append(lambda o, c, bad, a=a, b=b: (o["unroll"](*bad(seq(window(data, a, b), b - a))), c))
    elif kind == "fl-direct":
        e = zoo_flax.ZOO[s["module"]]
        if s["module"] in ("stream_fn", "streaming_optimizer"):
            return None
        ops.append(lambda o, c, bad: ((r := o["fn"].init(key, *bad(args(at(data, 0))))), r))
        for t in range(T):
            def op(o, c, bad, t=t):
                y, v = o["fn"].apply(c, *bad(args(at(data, t))), mutable=True)
                return (y, v), {**{k: v_ for k, v_ in c.items()}, **v}

            ops.append(op)
    elif kind == "fl-sscan":
        # the ready-made streaming functions: a scan of their own
        if s["module"] not in ("stream_fn",):
            return None
        ops.append(lambda o, c, bad: ((r := o["init"](key, *bad(args(at(data, 0))))), r))
        for a, b in ((0, T), (0, 1)):
            def op(o, c, bad, a=a, b=b):
                y, st = o["fn"].scan(c[0], c[1], None, *bad((data["x"][a:b],)))
                return (y, st), (c[0], st)

            ops.append(op)
    elif kind == "merge":
        from wax.stream import split_dataset_from_time_dims

        dss = split_dataset_from_time_dims(data)
        ops.append(lambda o, c, bad: (None, o["stream"].merge(o["stream"].start_dataset_streams(dict(dss)))))
        for t in range(T):
            ops.append(lambda o, c, bad: (flat(next(c)), c))
    elif kind in ("prepare", "prepare1"):
        def module(d):
            from wax.modules import EWMA, Lag

            r = {"x": EWMA(com=2.0)(d["x"])}
            if "y" in d:
                r["y"] = Lag(1)(d["y"])
            return {**r, **{k: d[k] for k in ("w", "when") if k in d}}

        ops.append(lambda o, c, bad: (tuple(tree_map(np.asarray, o["stream"].trace_dataset(data))), c))
        ops.append(lambda o, c, bad: (None, o["stream"].prepare(data, module)))

        def op(o, c, bad):
            fn, xs = c
            p, st = fn.init(key, xs)
            return (p, st), (fn, xs, p, st)

        ops.append(op)

        def op2(o, c, bad):
            fn, xs, p, st = c
            out, st = fn.apply(p, st, None, xs)
            enc = o["stream"].get_encoders(data)
            text = {k: [str(a) for a in enc[k].decode(np.asarray(out[k]))] for k in ("w", "when") if k in out}
            return (out, text, st), c

        ops.append(op2)
    else:  # accessor
        from wax.modules import EWMA, Diff, Lag

        mods = [lambda x: Lag(1)(x), lambda x: EWMA(com=2.0)(x), lambda x: Diff()(x)]

        def on(m):
            return (lambda d: tree_map(m, {k: d[k] for k in ("a", "b")})) if sc["acc"] == "ds" else m

        for m in [mods[(s["key"] + i) % 3] for i in range(2)]:
            def op(o, c, bad, m=m):
                out, st = o["stream"].apply(on(m), rng=key)
                return (plain(out), st), c

            ops.append(op)
        if sc["acc"] != "ds":
            ops.append(lambda o, c, bad: (plain(o["data"].wax.ewm(com=2.0, format_outputs=bool(s["opt"] & 4)).mean()), c))
    return ops


def flat(obs):
    out = {}
    for k, v in obs.items():
        t = list(v.time) if isinstance(v.time, (list, tuple)) or type(v.time).__name__ == "deque" else [v.time]
        out[k] = ([str(x) for x in t], {n: np.asarray(a) for n, a in v.value.items()})
    return out


def plain(out):
    """Values and labels of a formatted result."""
    import pandas as pd
    import xarray as xr

    if isinstance(out, xr.Dataset):
        return {str(k): plain(v) for k, v in out.items()}
    if isinstance(out, xr.DataArray):
        return ([str(d) for d in out.dims], {str(k): [str(x) for x in np.ravel(v.values)] for k, v in out.coords.items()}, np.asarray(out.values))
    if isinstance(out, (pd.DataFrame, pd.Series)):
        return ([str(x) for x in out.index], [str(x) for x in (out.columns if isinstance(out, pd.DataFrame) else [out.name])], np.asarray(out.values))
    if isinstance(out, dict):
        return {k: plain(v) for k, v in out.items()}
    return np.asarray(out)


def host(x):
    """A copy that nothing can change."""
    import jax

    return jax.tree_util.tree_map(lambda a: np.array(a) if hasattr(a, "dtype") else a, jax.device_get(x))


def alone(sc, s, data):
    """The session by itself, on objects of its own: list of results, or None if it cannot run at all."""
    objs = build_objects(sc, s)
    ops = ops_of(sc, s, objs, data)
    if ops is None:
        return None
    out, c = [], None
    for op in ops:
        r, c = op(objs, c, lambda a: a)
        out.append(host(r))
    return out


def same(a, b):
    import jax

    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if str(ta) != str(tb) or len(la) != len(lb):
        return f"structure {ta} instead of {tb}"
    for x, y in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype != y.dtype or x.shape != y.shape:
            return f"{x.dtype}{x.shape} instead of {y.dtype}{y.shape}"
        if x.dtype.kind in "fc":
            if not np.array_equal(x, y, equal_nan=True):
                return f"{x!r} instead of {y!r}"
        elif not np.array_equal(x, y):
            return f"{x!r} instead of {y!r}"
    return None


def spoiled(kind):
    """Garbage in the place of the inputs of one operation."""
    import jax
    import jax.numpy as jnp

    def bad(args):
        leaves, td = jax.tree_util.tree_flatten(args)
        if kind % 3 == 0:
            return td.unflatten([jnp.zeros((7, 5) + jnp.shape(x)) for x in leaves])
        if kind % 3 == 1:
            return args[:-1]
        return td.unflatten([jnp.full(jnp.shape(x), 9).astype(x.dtype) for x in leaves])

    return bad


class Session:
    def __init__(self, i, sc, s, objs, data, want, ctx, race):
        self.i, self.sc, self.s, self.data, self.want, self.ctx, self.race = i, sc, s, data, want, ctx, race
        self.objs = objs
        self.ops = ops_of(sc, s, objs, data)
        self.k, self.carry = 0, None
        self.faults = [list(f) for f in s["faults"]]
        self.over = False
        self.arm = None
        self.n = 0
        self.name = f"session {i} ({s['kind']} {s['module']})"

    def due(self, *kinds):
        for f in self.faults:
            if f[1] == self.k and f[0] in kinds:
                self.faults.remove(f)
                return f
        return None

    def call(self, bad=lambda a: a, arm=None):
        """One operation; arm: interrupt at that line of the package."""
        op, k, c = self.ops[self.k], self.k, self.carry
        self.arm, self.n = arm, 0

        def go():
            try:
                r, c2 = op(self.objs, c, bad)
                return host(r), c2
            finally:
                self.arm = None

        return self.race.op(f"{self.i}.{k}", go, who=self.i)

    def step(self):
        """One operation with the faults that are due; False when the session is over."""
        ctx, s = self.ctx, self.s
        if self.over or self.k >= len(self.ops):
            self.over = True
            return False
        if self.due("abandon"):
            ctx.fault("session-abandoned")
            ctx.probe("abandoned")
            if hasattr(self.carry, "close"):
                self.carry.close()
            self.over = True
            return False
        if self.due("restart"):
            ctx.fault("session-restarted")
            ctx.probe("restarted")
            self.k, self.carry = 0, None
        if self.due("crash") and self.k and s["kind"][:2] in ("hk", "fl"):
            from sim.data import pickled

            ctx.fault("crash")
            ctx.probe("crash")
            self.objs = build_objects(self.sc, s)
            self.carry = pickled(self.carry)
        f = self.due("garbage")
        if f and s["kind"][:2] in ("hk", "fl"):
            o = self.call(bad=spoiled(f[2]))
            ctx.fault("garbage-input")
            ctx.probe("garbage")
            ctx.log(self.name, self.k, "garbage", type(o["exc"]).__name__ if o["exc"] else "accepted")
        f = self.due("interrupt")
        if f:
            o = self.call(arm=f[2])
            if isinstance(o["exc"], Interrupted):
                ctx.fault("interruption")
                ctx.probe("interrupted")
                if s["kind"] == "merge" and self.k:  # the generator is gone: a new session
                    self.k, self.carry = 0, None
                return True
            self.judge(o)
        else:
            self.judge(self.call())
        return True

    def judge(self, o):
        ctx = self.ctx
        if o["exc"] is not None:
            ctx.violate("session-failed", f"{self.name}: operation {self.k} fails: {type(o['exc']).__name__}: {str(o['exc'])[:300]}", self.s["kind"])
            self.over = True
            return
        r, self.carry = o["res"]
        d = same(r, self.want[self.k])
        ctx.logv(f"{self.name} {self.k}", r)
        if d is not None:
            ctx.violate("session-influenced", f"{self.name}: operation {self.k} gives what it does not give alone: {d[:600]}", self.s["kind"])
            self.over = True
            return
        self.k += 1


def usable(ctx, sc, s, data):
    try:
        return alone(sc, s, data)
    except Exception as e:  # a combination the library does not support
        ctx.log("cannot run alone", s["kind"], s["module"], type(e).__name__, str(e)[:200])
        return None


def data_of(sc, s):
    if s["kind"] in ("merge", "prepare", "prepare1"):
        return dataset(s)
    if s["kind"] == "accessor":
        return None
    return inputs(s, sc["x64"])


def everything():
    """Import what could be imported half way: the code of a module runs once per process."""
    import importlib
    import pkgutil

    for name in ("wax", "wax.modules", "wax.flax.core", "wax.flax.modules"):
        m = importlib.import_module(name)
        for i in pkgutil.iter_modules(m.__path__, name + "."):
            if not i.ispkg and not i.name.endswith("_test"):
                importlib.import_module(i.name)


def preload():
    everything()
    from sim import race, seams, zoo_flax, zoo_haiku  # noqa: F401


def setting(sc):
    import jax

    everything()
    jax.config.update("jax_enable_x64", bool(sc["x64"]))
    jax.config.update("jax_disable_jit", bool(sc["nojit"]))


def run(sc, ctx):
    import jax

    pure = pristine(sc)
    setting(sc)
    try:
        sessions_together(sc, ctx, pure)
    finally:
        jax.config.update("jax_disable_jit", False)


def pristine(sc):
    """Results of one session in a process in which nothing else has happened: (session, results) or None."""
    from sim import fresh

    i = sc.get("pristine")
    if i is None or i >= len(sc["sessions"]):
        return None
    s = sc["sessions"][i]

    def go():
        setting(sc)
        try:
            return alone(sc, s, data_of(sc, s))
        except Exception as e:
            return f"fails: {type(e).__name__}: {str(e)[:300]}"

    return i, fresh.call(go, HANG_S)


def unlike(got, want):
    """How the results of a session differ from those of the same session in a new process."""
    if want is None or isinstance(want, str):
        return None if got is None else f"it succeeds, and {want}" if want else None
    if got is None:
        return "it fails"
    for k, (a, b) in enumerate(zip(got, want)):
        d = same(a, b)
        if d is not None:
            return f"operation {k}: {d[:600]}"
    return None


def sessions_together(sc, ctx, pure):
    from sim import seams
    from sim.fresh import Died
    from sim.race import Race

    ctx.nontrivial = False
    todo, seen = [], {}
    for i, s in enumerate(sc["sessions"]):
        data = data_of(sc, s)
        k = repr({**s, "faults": 0})
        if k not in seen:
            seen[k] = usable(ctx, sc, s, data)
        want = seen[k]
        if pure is not None and pure[0] == i and not isinstance(pure[1], Died):
            ctx.probe("first-session")
            d = unlike(want, pure[1])
            ctx.check(d is None, "session-influenced", f"session {i} ({s['kind']} {s['module']}): alone, but after others, it gives what it does not give in a new process: {d}", s["kind"])
        if want is not None:
            todo.append((s, data, want))
    if not todo:
        ctx.nontrivial = False
        return
    # objects: everybody's own, the user's function in common, or everything in common
    shared = {}
    lot, before = [], []
    for i, (s, data, want) in enumerate(todo):
        key = (s["kind"], s["module"], s["opt"])
        fkey = (s["kind"][:2], s["module"], s["opt"])
        if sc["share"] == "all":
            if s["kind"] == "accessor":
                key += (s["vseed"], s["T"])
            elif s["kind"] in ("hk-scan", "fl-scan", "fl-unroll"):
                key += (s["key"] % 6,)
            if key not in shared:
                shared[key] = build_objects(sc, s)
            objs = shared[key]
        elif sc["share"] == "function" and s["module"]:
            if fkey not in shared:
                shared[fkey] = build_objects(sc, s)["fn"]
            objs = build_objects(sc, s, shared[fkey])
        else:
            objs = build_objects(sc, s)
        before.append(plain(objs["data"]) if "data" in objs else plain(data) if s["kind"] in ST else host(data))
        lot.append(objs)
        ctx.probe("haiku" if s["kind"][:2] == "hk" else "flax" if s["kind"][:2] == "fl" else "accessor" if s["kind"] == "accessor" else "stream")
        if "lift" in s["kind"]:
            ctx.probe("lift")
        if s["kind"].startswith("prepare") and "w" in data:
            ctx.probe("text")
        if s["kind"] in ("merge", "prepare") and s["opt"] & 10 == 10:
            ctx.probe("other-fill")
        if "scan" in s["kind"] or "unroll" in s["kind"]:
            ctx.probe("scan")
    ctx.probe({"all": "shared", "function": "shared-function", "none": "own"}[sc["share"]])
    if len({s["kind"] for s, _, _ in todo}) > 1:
        ctx.probe("mixed")
    if len({s["vseed"] for s, _, _ in todo}) < len(todo):
        ctx.probe("same-data")
    if sc["nojit"]:
        ctx.probe("no-compilation")
    elif sc["jit"]:
        ctx.probe("jit")
    ctx.state(tuple(sorted({s["kind"] + s["module"] for s, _, _ in todo})), sc["share"], sc["threads"], tuple(sorted({f[0] for s, _, _ in todo for f in s["faults"]})))

    out = dict(sc, rounds=[dict(c) for c in sc["rounds"]])
    race = sessions = None
    for n, conf in enumerate(sc["rounds"]):
        race = Race(ctx, {**sc, "sched": conf}, step_cap=4_000_000, env=seams.Env())
        sessions = [Session(i, sc, s, objs, data, want, ctx, race) for i, ((s, data, want), objs) in enumerate(zip(todo, lot))]
        one_round(sc, ctx, race, sessions, n)
        out["rounds"][n] = ctx.scenario_out["sched"]
        ctx.scenario_out = out
        if ctx.violations:
            return
    if sessions is None:
        ctx.nontrivial = False
        return
    for q, b in zip(sessions, before):
        now = plain(q.objs["data"]) if "data" in q.objs else plain(q.data) if q.s["kind"] in ST else host(q.data)
        ctx.check(same(now, b) is None, "data-changed", f"{q.name}: the data it was given have been changed: {same(now, b)}", q.s["kind"])
    # later sessions, on the used objects and on fresh ones
    ctx.probe("later-session")
    for q in sessions[-1:]:
        d = {**q.s, "faults": []}
        later = Session(q.i, sc, d, q.objs, q.data, q.want, ctx, race)
        later.name = "later " + later.name
        while later.step():
            pass
    q = sessions[0]
    if sc["order"] % 3:
        return
    again = usable(ctx, sc, q.s, q.data)
    d = "fails" if again is None else same(again, q.want)
    ctx.check(d is None, "later-session", f"{q.name}: run alone after the others it gives something else: {d}", q.s["kind"])


def one_round(sc, ctx, race, sessions, n):
    from sim import core

    by_task = {}

    def hook(task, code, where):
        q = by_task.get(task.idx)
        if q is not None and q.arm is not None:
            q.n += 1
            if q.n > q.arm:
                q.arm = None
                ctx.state("interrupted", code.co_filename.rsplit("/", 1)[-1], code.co_name, where)
                raise Interrupted

    race.s.hook = hook
    if sc["threads"] and len(sessions) > 1:
        ctx.probe("threads")

        def body(q):
            def go():
                by_task[q.i] = q
                while q.step():
                    pass

            return go

        race.run([body(q) for q in sessions])
    else:
        ctx.probe("interleaved")
        r = core.rng_for("order", sc["order"], n)

        def driver():
            live = list(sessions)
            while live:
                q = live[int(r.random() * len(live))]
                by_task[0] = q
                if not q.step():
                    live.remove(q)

        race.run([driver])
    ctx.sim_time += float(len(race.hist))  # one delivered observation or batch per operation
    spans = {}
    for o in race.hist:
        a, b = spans.get(o["who"], (o["inv"], o["inv"]))
        spans[o["who"]] = (min(a, o["inv"]), max(b, o["ret"] or o["inv"]))
    sp = list(spans.values())
    ctx.nontrivial = ctx.nontrivial or any(a[0] < b[1] and b[0] < a[1] for i, a in enumerate(sp) for b in sp[i + 1 :])
