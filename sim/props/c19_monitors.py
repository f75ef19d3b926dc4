"""C19 - debugging, profiling and tracking never change what a model computes."""

import collections
import io
import sys
import warnings

import numpy as np

RUNS = {"quick": 8000, "thorough": 80000}
SEARCH = "monitors and nestings, interleavings of monitored sessions, on/off/reset/read schedules, failing conditions, metrics, consoles and outputs, failing models"
RULE = (
    "One run drives 1-3 sessions of a model through 0-4 nested monitors (debugger with hooks, profiler, memory tracker, flow tracker), shared "
    "or not, in simulated threads, while monitors are switched, reset, read and fail. Every step calls the model once with the "
    "very arguments given, returns the very objects or raises the very exception of the model, and outputs and states equal those of "
    "the bare model run alone. A part of the runs monitors real modules, eager, inside or around jit and unrolled. Non-trivial: a monitored step happened."
)
STATE_MEASURE = "distinct (monitor stack, step outcome) and distinct preemption sites in wax"
REAL = ["debug_streaming, profile_streaming, track_memory_usage and their monitors", "DataFlowTracker", "Haiku and Flax modules, JAX (in part of the runs)"]
STUB = ["clock, threads, locks", "psutil, tracemalloc, gc readings", "console and standard output (can fail)", "models of the threaded runs"]
ASSUMPTIONS = ["a debugging session that the user quits at a breakpoint may end the model's step", "monitors run around jit and scan, values of traced steps are placeholders"]
PROBES = ["debug", "profile", "memory", "flow", "nested", "bare", "shared", "threads", "raise", "base-exception", "in-place", "hostile-value", "stateless", "switch", "reset", "read", "metrics-fail", "stdout-fail", "console", "hook-fails", "kwargs", "real", "jit-in", "jit-out", "unroll", "init", "call", "clock-jump"]
SHRINK_LISTS = ["threads", "threads.*", "stack", "hooks", "admin", "sched.decisions"]
SHRINK_INTS = []

KINDS = ["debug", "profile", "memory", "flow"]
MODELS = ["hk-ewma", "hk-buffer", "hk-noise", "hk-event", "flax-ewma", "flax-buffer", "flax-dense", "flax-mean"]
VALUES = ["array", "array", "jax", "dict", "tuple2", "tuple3", "named", "none", "scalar", "generator", "objects", "deleted", "object", "unprintable", "text", "surrogate", "hostile-list", "huge-int"]


def gen(rng, idx, tier):
    from sim.race import schedule

    stack = [rng.choice(KINDS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    real = None
    if rng.random() < (0.02 if tier == "quick" else 0.05):
        real = {"model": rng.choice(MODELS), "mode": rng.choice(["eager", "jit-in", "jit-out", "unroll"]), "seed": rng.randrange(10**6), "T": rng.randrange(2, 7), "bad": rng.choice([None, None, None, 1, 2]), "nan": rng.random() < 0.4}
        stack = stack or ["debug"]
    ops = lambda: {"v": rng.choice(VALUES), "d": rng.choice([0, 0.001, 0.05, 2.0]), "exc": rng.choice([None] * 7 + ["Boom", "KeyboardInterrupt", "SystemExit", "StopIteration", "GeneratorExit", "OSError", "MemoryError"]), "kw": rng.random() < 0.3, "inplace": rng.random() < 0.3, "out": rng.choice(["pair"] * 6 + ["bare", "triple"]), "inner": rng.choice([None] * 6 + ["read", "switch", "reset", "jump"])}
    hook = lambda: {"action": rng.choice(["log", "break", "capture", "alert"]), "cond": rng.choice(["always", "even", "never", "threshold", "interval", "change", "raise", "vector", "add", "remove", "slow", "read", "off"]), "max": rng.choice([1, 3, 1000])}
    return {
        "stack": stack,
        "share": rng.random() < 0.6,
        "order": [rng.sample(range(len(stack)), len(stack)) for _ in range(3)],
        "real": real,
        "threads": [[ops() for _ in range(rng.randrange(1, 6))] for _ in range(rng.choice([1, 1, 2, 3]))],
        "hooks": [hook() for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))],
        "perf": rng.choice([None, 0.0, 0.5, 100.0]),
        "timing": rng.random() < 0.7,
        "detail": rng.random() < 0.7,
        "deep": rng.random() < 0.2,
        "max": rng.choice([1, 2, 5, 1000]),
        "named": rng.random() < 0.7,
        "admin": [{"k": rng.choice(["off", "on", "reset", "read", "fail", "heal", "mute", "jump", "rss", "wait"]), "m": rng.randrange(4), "d": rng.choice([0, 0.001, 0.03]), "how": rng.choice(["disk", "pipe", "ascii", "closed"])} for _ in range(rng.randrange(0, 8))],
        "console": [rng.choice(["c", "s", "i", "o", "h", "?", "eof", "oserror"]) for _ in range(rng.randrange(0, 6))],
        "sched": schedule(rng),
    }


Pair = collections.namedtuple("Pair", "a b")


class Odd:
    """A value that answers nothing it is asked."""

    def __getattr__(self, name):
        raise RuntimeError("no " + name)

    def __repr__(self):
        raise RuntimeError("not printable")

    def __len__(self):
        raise RuntimeError("no length")

    def __iter__(self):
        raise RuntimeError("not iterable")

    def __bool__(self):
        raise RuntimeError("no truth value")

    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError("not comparable")


class HostileList(list):
    """A list that is read by index only."""

    def __iter__(self):
        raise RuntimeError("not iterable")


class Unprintable:
    def __repr__(self):
        raise ValueError("not printable")


def make(kind, i):
    a = np.arange(3.0) + i
    if kind == "jax":
        import jax.numpy as jnp

        return jnp.asarray(a)
    if kind == "dict":
        return {"p": a, "q": {"r": [a + 1, i]}}
    if kind == "tuple2":
        return (a, {"n": i})
    if kind == "tuple3":
        return (a, a + 1, None)
    if kind == "named":
        return Pair(a, a + 2)
    if kind == "none":
        return None
    if kind == "scalar":
        return float(i)
    if kind == "generator":
        return (x for x in [i, i + 1])
    if kind == "objects":
        c = np.empty(2, object)
        c[0] = Odd()
        c[1] = a
        return c
    if kind == "deleted":
        import jax.numpy as jnp

        x = jnp.asarray(a)
        x.delete()
        return x
    if kind == "object":
        return Odd()
    if kind == "unprintable":
        return Unprintable()
    if kind == "text":
        return "é" * i
    if kind == "surrogate":  # what os.listdir gives for names that are no utf-8
        return {"name": "data-\udc80.csv", "a": a}
    if kind == "hostile-list":
        return HostileList([a, i])
    if kind == "huge-int":
        return 10**400
    return a


def content(kind, v):
    """What a value holds, to see that nobody changed or used it up."""
    if kind == "generator":
        return list(v)
    if kind in ("deleted", "object", "unprintable", "none", "scalar", "text", "huge-int"):
        return None
    if kind == "hostile-list":
        return len(v), v[0].tolist(), v[1]
    if kind == "objects":
        return (len(v), type(v[0]).__name__, v[1].tolist())
    import jax

    return [(type(x).__name__, np.asarray(x).tolist()) for x in jax.tree_util.tree_leaves(v)], str(jax.tree_util.tree_structure(v))


class Model:
    """A model with tokens: counts its calls and remembers what it got and gave."""

    __name__ = "model"

    def __init__(self, work=None):
        self.calls = []
        self.inits = []
        self.work = work or (lambda op: None)

    def init(self, rng, x):
        self.inits.append((rng, x))
        return {"w": np.ones(3)}, {"n": np.zeros(3), "t": 0}

    def __call__(self, x, k=1):
        self.calls.append(("call", x, k))
        return x

    def apply(self, params, state, rng, x, *rest, op=None, scale=None):
        rec = {"args": (params, state, rng, x, rest, scale), "ret": None, "exc": None}
        self.calls.append(rec)
        self.work(op)
        if op["exc"]:
            rec["exc"] = e = EXC[op["exc"]]("model fails")
            raise e
        if op["inplace"]:
            state["n"] += 1.0
            state["t"] += 1
            new = state
        else:
            new = {"n": state["n"] * 0.5 + params["w"], "t": state["t"] + 1}
        y = make(op["v"], state["t"])
        rec["ret"] = {"pair": (y, new), "bare": y, "triple": (y, new, rng)}[op["out"]]
        rec["new"], rec["y"] = new, y
        return rec["ret"]


class Boom(Exception):
    pass


EXC = {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "OSError": OSError, "MemoryError": MemoryError}


class Out(io.TextIOBase):
    """Standard output that can fail."""

    def __init__(self):
        self.how = None
        self.failed = 0

    def write(self, s):
        if self.how == "disk":
            self.failed += 1
            raise OSError(28, "No space left on device")
        if self.how == "pipe":
            self.failed += 1
            raise BrokenPipeError(32, "Broken pipe")
        if self.how == "closed":
            self.failed += 1
            raise ValueError("I/O operation on closed file.")
        if self.how == "ascii" and not s.isascii():
            self.failed += 1
            s.encode("ascii")
        return len(s)

    def flush(self):
        pass


def run(sc, ctx):
    old = sys.stdout
    out = sys.stdout = Out()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run_in(sc, ctx, out)
    finally:
        sys.stdout = old
    if out.failed:
        ctx.fault("stdout-fails", out.failed)
        ctx.probe("stdout-fail")


class Monitors:
    """The monitors of one run, and everything a user may do to them."""

    def __init__(self, sc, R, env, ctx):
        from wax.flax.debug import debugger as D
        from wax.flax.debug import memory_tracker as M
        from wax.flax.debug import profiler as P
        from wax.flax.visualization import data_flow_visualizer as V

        self.D, self.M, self.P, self.V, self.sc, self.R, self.env, self.ctx = D, M, P, V, sc, R, env, ctx
        self.objs = []

    def debugger(self):
        D, sc, ctx = self.D, self.sc, self.ctx
        d = D.StreamingDebugger(max_history=sc["max"]) if sc["max"] != 1000 else D.StreamingDebugger()
        for i, h in enumerate(sc["hooks"]):

            def cond(step, state, inp, out, h=h, i=i, hits=[0]):
                c = h["cond"]
                hits[0] += 1
                if c in ("raise", "vector", "add", "remove"):
                    ctx.probe("hook-fails")
                    ctx.fault("odd-hook")
                if c == "raise":
                    raise Boom("condition")
                if c == "vector":
                    return np.ones(3) > 0
                if c == "add":
                    d.add_hook(D.DebugHook(f"new{hits[0]}", lambda *a: True, "capture", 2))
                if c == "remove":
                    d.remove_hook(f"h{i}")
                if c == "slow":
                    self.R.sleep(0.01)
                if c == "read":
                    d.get_summary()
                if c == "off":
                    d.disable()
                return c in ("always", "slow", "read") or (c == "even" and step % 2 == 0)

            c = {"threshold": D.value_threshold(1.0), "interval": D.step_interval(2), "change": D.state_change_detector("n")}.get(h["cond"], cond)
            d.add_hook(D.DebugHook(f"h{i}", c, h["action"], h["max"]))
        if sc["perf"] is not None:
            d.add_performance_monitor("slow", sc["perf"])
        return d

    def new(self, kind):
        sc = self.sc
        if kind == "debug":
            m = self.debugger()
        elif kind == "profile":
            m = self.P.StreamingProfiler(max_history=sc["max"])
        elif kind == "memory":
            m = self.M.MemoryTracker(max_snapshots=sc["max"], enable_detailed_tracking=sc["deep"])
        else:
            m = self.V.DataFlowTracker(max_history=sc["max"])
        self.objs.append((kind, m))
        return m

    def wrap(self, kind, m, fn):
        name = "mod" if self.sc["named"] else None
        self.ctx.probe(kind)
        if kind == "debug":
            return self.D.debug_streaming(m, name, enable_timing=self.sc["timing"])(fn)
        if kind == "profile":
            return self.P.profile_streaming(m, name, enable_detailed_tracking=self.sc["detail"])(fn)
        if kind == "memory":
            return self.M.track_memory_usage(m, name, detailed_state_analysis=self.sc["detail"])(fn)

        class Flow:  # what users of the flow tracker write
            __name__ = "flow"
            original = fn

            def __call__(self, *a, **k):
                return fn(*a, **k)

            @staticmethod
            def init(*a, **k):
                return fn.init(*a, **k)

            @staticmethod
            def apply(params, state, rng, *a, **k):
                m.step()
                m.record_data("mod", "input", a[0])
                r = fn.apply(params, state, rng, *a, **k)
                m.record_data("mod", "output", r[0] if isinstance(r, tuple) else r, {"n": 1})
                m.record_data("mod", "state", r[1] if isinstance(r, tuple) else state)
                return r

        return Flow()

    def stack(self, fn, i, share=None):
        sc = self.sc
        for j in sc["order"][i] if len(sc["order"][i]) == len(sc["stack"]) else range(len(sc["stack"])):
            kind = sc["stack"][j]
            if share is not None:
                while len(share) < len(sc["stack"]):
                    share.append(self.new(sc["stack"][len(share)]))
                m = share[j]
            else:
                m = self.new(kind)
            fn = self.wrap(kind, m, fn)
        return fn

    def act(self, k, i):
        """A user's call on a monitor; what it returns is the business of other properties."""
        if not self.objs:
            return
        kind, m = self.objs[i % len(self.objs)]
        try:
            if k == "off" and kind != "flow":
                m.disable()
                self.ctx.probe("switch")
            elif k == "on" and kind != "flow":
                m.enable()
            elif k == "reset":
                {"debug": lambda: m.clear_history(), "profile": lambda: m.reset(), "memory": lambda: m.reset(), "flow": lambda: m.clear()}[kind]()
                self.ctx.probe("reset")
            elif k == "read":
                self.ctx.probe("read")
                if kind == "debug":
                    m.get_summary()
                    m.export_events()
                elif kind == "profile":
                    m.finalize().get_summary()
                    m.generate_optimization_recommendations()
                    m.detect_memory_leaks()
                elif kind == "memory":
                    m.get_memory_summary()
                    m.generate_memory_report()
                else:
                    m.get_recent_data(5)
                    m.get_module_data("mod")
                    v = self.V.DataFlowVisualizer(backend="text")
                    v.attach_tracker(m)
                    v.create_streaming_plot()
        except Exception:  # odd values may be unreadable, reading them is not the model's step
            self.ctx.fault("read-raises")


def run_in(sc, ctx, out):
    import psutil

    from sim import seams
    from sim.race import Race

    R = Race(ctx, sc, env=seams.Env())
    env = R.env
    lines = iter(sc["console"])

    def console():
        ctx.probe("console")
        c = next(lines, None)
        if c in (None, "eof"):
            raise EOFError
        if c == "oserror":
            raise OSError(5, "console is gone")
        return c

    env.input_script = console
    mon = Monitors(sc, R, env, ctx)
    n = len(sc["stack"])
    ctx.probe("bare" if n == 0 else "nested" if n > 1 else "single")
    if sc["real"]:
        ctx.probe("real")
        return run_real(sc, ctx, R, env, mon, out)
    share = [] if sc["share"] and len(sc["threads"]) > 1 else None
    if share is not None:
        ctx.probe("shared")
    if len(sc["threads"]) > 1:
        ctx.probe("threads")

    def work(op):
        R.sleep(op["d"])
        k = op["inner"]
        if k == "jump":
            env.clock.jump(-30.0)
            ctx.probe("clock-jump")
        elif k == "switch":
            mon.act("off", 0)
        elif k:
            mon.act(k, 0)

    models = [Model(work) for _ in sc["threads"]]
    with ctx.guard("wrapping-failed"):
        wrapped = [mon.stack(m, i, share) for i, m in enumerate(models)]
    finals = []

    def session(i, ops):
        m, w = models[i], wrapped[i]

        def body():
            key, x0 = object(), np.zeros(3)
            try:
                params, state = w.init(key, x0)
            except Exception as e:
                ctx.violate("other-exception", f"init of the monitored model raised {e!r}", "init")
                return
            ctx.check(len(m.inits) == 1 and m.inits[0][0] is key and m.inits[0][1] is x0, "not-once", "init of the monitored model is not one call of the model's with the same arguments", "init")
            ctx.probe("init")
            res = []
            for t, op in enumerate(ops):
                x, rng, before = make(op["v"], t), object(), len(m.calls)
                kw = {"scale": object()} if op["kw"] else {}
                rest = (object(),) if op["kw"] else ()
                if op["kw"]:
                    ctx.probe("kwargs")
                if op["inplace"]:
                    ctx.probe("in-place")
                if op["v"] in ("generator", "objects", "deleted", "object", "unprintable"):
                    ctx.probe("hostile-value")
                exc = got = None
                x_was = content(op["v"], x) if op["v"] != "generator" else None
                try:
                    got = w.apply(params, state, rng, x, *rest, op=op, **kw)
                except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
                    exc = e
                calls = m.calls[before:]
                if len(calls) != 1:
                    ctx.violate("not-once", f"the model ran {len(calls)} times in one step ({exc!r})", "apply")
                    return
                rec = calls[0]
                a = rec["args"]
                ctx.check(a[0] is params and a[1] is state and a[2] is rng and a[3] is x and len(a[4]) == len(rest) and all(p is q for p, q in zip(a[4], rest)) and a[5] is kw.get("scale"), "other-arguments", lambda: f"the model got other arguments than the caller gave: {op}", "apply")
                ctx.state(tuple(sc["stack"]), op["v"], op["out"], type(exc).__name__)
                if rec["exc"] is not None:
                    ctx.probe("raise")
                    ctx.fault("model-raises")
                    if not isinstance(rec["exc"], Exception):
                        ctx.probe("base-exception")
                    ctx.check(exc is rec["exc"], "other-exception", lambda: f"the model raised {rec['exc']!r}, the caller got {exc!r} / {type(got).__name__}", "apply")
                    ctx.check(exc is not rec["exc"] or (exc.__cause__ is None and exc.__context__ is None), "other-exception", "the exception carries another one of the monitor", "context")
                elif exc is not None:
                    ctx.violate("other-exception", f"the model returned, the caller got {exc!r}", "apply")
                    return
                else:
                    same = got is rec["ret"] or (type(got) is tuple and type(rec["ret"]) is tuple and len(got) == len(rec["ret"]) and all(p is q for p, q in zip(got, rec["ret"])))
                    ctx.check(same, "other-result", lambda: f"the model returned {type(rec['ret']).__name__}, the caller got {type(got).__name__}", "apply")
                    if op["out"] == "bare":
                        ctx.probe("stateless")
                    if op["v"] != "generator":
                        res.append((content(op["v"], rec["y"]), rec["new"]["n"].tolist(), rec["new"]["t"]))
                        ctx.check(content(op["v"], x) == x_was, "input-changed", "monitoring changed the input", "apply")
                    else:
                        ctx.check(list(x) == [t, t + 1], "input-changed", "monitoring used up the input", "generator")
                        res.append((content("generator", rec["y"]), rec["new"]["n"].tolist(), rec["new"]["t"]))
                    state = rec["new"]
            tok = object()
            before = len(m.calls)
            try:
                r = w(tok, k=7)
                ctx.check(r is tok and m.calls[before:] == [("call", tok, 7)], "other-result", "calling the monitored function is not calling the function", "call")
                ctx.probe("call")
            except Exception as e:
                ctx.violate("other-exception", f"calling the monitored function raised {e!r}", "call")
            finals.append((i, res, params["w"].tolist(), state["n"].tolist(), state["t"]))

        return body

    def admin():
        for a in sc["admin"]:
            k = a["k"]
            if k == "fail":
                env.proc.fail = psutil.AccessDenied(1)
                ctx.probe("metrics-fail")
                ctx.fault("metrics-unreadable")
            elif k == "heal":
                env.proc.fail = None
                out.how = None
            elif k == "mute":
                out.how = a["how"]
            elif k == "jump":
                env.clock.jump(-100.0)
                ctx.probe("clock-jump")
            elif k == "rss":
                env.proc.rss += 500 * 2**20
            elif k != "wait":
                mon.act(k, a["m"])
            R.sleep(a["d"])

    if not R.run([session(i, ops) for i, ops in enumerate(sc["threads"])] + [admin]):
        return
    ctx.nontrivial = n > 0 and bool(finals)
    ctx.log(sorted(repr(f[1:]) for f in finals))
    # --- the bare model, alone
    for i, res, w, sn, st in finals:
        m = Model()
        params, state = m.init(None, None)
        want = []
        for op in sc["threads"][i]:
            try:
                m.apply(params, state, None, None, op=op)
            except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit):
                continue
            rec = m.calls[-1]
            want.append((content(op["v"], rec["y"]), rec["new"]["n"].tolist(), rec["new"]["t"]))
            state = rec["new"]
        ctx.check(res == want and (w, sn, st) == (params["w"].tolist(), state["n"].tolist(), state["t"]), "other-result", lambda: f"monitored: {res}, {w}, {sn}, {st}; bare: {want}, {state}", "values")


def build(name):
    import jax
    import jax.numpy as jnp

    if name.startswith("hk"):
        import haiku as hk
        from wax.modules import EWMA, Buffer, UpdateOnEvent

        if name == "hk-ewma":
            fn = lambda x: EWMA(alpha=0.3, adjust=True)(x)
        elif name == "hk-buffer":
            fn = lambda x: Buffer(3)(x)
        elif name == "hk-noise":

            def fn(x):
                w = hk.get_parameter("w", x.shape[-1:], init=jnp.ones)
                return hk.dropout(hk.next_rng_key(), 0.5, x * w) + jax.random.normal(hk.next_rng_key(), x.shape)

        else:
            fn = lambda x: UpdateOnEvent(EWMA(alpha=0.3, adjust=False))(x[0] > 0, x)
        return hk.transform_with_state(fn)
    import flax.linen as nn
    from wax.flax.core.transform import flax_transform_with_state
    from wax.flax.modules import EWMA, Buffer, RollingMean

    mod = {"flax-ewma": lambda: EWMA(alpha=0.3), "flax-buffer": lambda: Buffer(3), "flax-dense": lambda: nn.Dense(2), "flax-mean": lambda: RollingMean(3)}[name]()
    return flax_transform_with_state(mod)


BARE = {}


def outcome(fn):
    import jax

    try:
        return "value", jax.device_get(fn())
    except Exception as e:
        return type(e).__name__, str(e)[:200]


def run_real(sc, ctx, R, env, mon, out):
    import jax
    import jax.numpy as jnp

    c = sc["real"]
    rs = np.random.RandomState(c["seed"])
    xs = rs.randn(c["T"], 2).astype(np.float32)
    if c["nan"]:
        xs[rs.rand(*xs.shape) < 0.2] = np.nan
    key = jax.random.PRNGKey(c["seed"])
    name, mode = c["model"], c["mode"]
    if mode != "eager":
        ctx.probe(mode)

    def drive(wrap, store):
        """Outcome of every step: outputs, states, or the exception."""
        if "tf" not in store:
            tf = build(name)
            store["n"] = [0]

            def apply(p, s, rng, x):
                store["n"][0] += 1
                return tf.apply(p, s, rng, x)

            one = type(tf)(tf.init, jax.jit(tf.apply) if mode == "jit-in" else apply)
            w = store["tf"] = wrap(one)
            if mode == "jit-out":
                store["step"] = jax.jit(w.apply)
            elif mode == "unroll":
                if name.startswith("hk"):
                    import haiku as hk
                    from wax.unroll import unroll_transform_with_state

                    store["step"] = unroll_transform_with_state(hk.TransformedWithState(w.init, w.apply)).apply
                else:
                    from wax.flax.core.transform import FlaxTransformed
                    from wax.flax.core.unroll import flax_unroll_transform

                    store["step"] = flax_unroll_transform(FlaxTransformed(w.init, w.apply)).apply
            else:
                store["step"] = w.apply
        w, step, n = store["tf"], store["step"], store["n"]
        p, s = w.init(key, jnp.asarray(xs[0]))
        res = [outcome(lambda: (p, s))]
        if mode == "unroll":
            r = outcome(lambda: step(p, s, key, jnp.asarray(xs)))
            return res + [r]
        for t in range(c["T"]):
            x = jnp.asarray(xs[t])
            if c["bad"] == t:
                x = jnp.zeros((2, 3, 1), jnp.float32)
            before = n[0]
            r = outcome(lambda: step(p, s, jax.random.fold_in(key, t), x))
            res.append((r, n[0] - before if mode == "eager" else 0))
            if r[0] == "value":
                s = jax.tree_util.tree_map(jnp.asarray, r[1][1])
        return res

    want = drive(lambda f: f, BARE.setdefault((name, mode), {}))
    with ctx.guard("wrapping-failed", "real"):
        mon.stack(build(name), 0)
    mon.objs.clear()
    got = []

    def body():
        o = R.op("session", lambda: drive(lambda f: mon.stack(f, 0), {}))
        if o["exc"] is not None:
            ctx.violate("other-exception", f"the monitored session raised {o['exc']!r}", name)
        got.append(o["res"])

    def admin():
        for a in sc["admin"]:
            if a["k"] in ("off", "on", "reset", "read"):
                mon.act(a["k"], a["m"])
            elif a["k"] == "mute":
                out.how = a["how"]
            elif a["k"] == "heal":
                out.how = None
            R.sleep(a["d"])

    if not R.run([body, admin]) or got[0] is None:
        return
    got = got[0]
    if c["bad"] is None:
        bad = [w for w in want if (w if mode == "unroll" or w is want[0] else w[0])[0] != "value"]
        if bad:
            raise RuntimeError(f"the bare model fails: {name} {mode} {bad[0]}")
    ctx.nontrivial = True
    ctx.logv("got", [g[1] if g[0] == "value" else 0 for g in got[:1]])
    ctx.state(name, mode, tuple(sc["stack"]))
    if len(got) != len(want):
        ctx.violate("other-result", f"{len(got)} results instead of {len(want)}", name)
        return
    for t, (g, w) in enumerate(zip(got, want)):
        if mode != "unroll" and t:
            ctx.check(g[1] == w[1], "not-once", lambda: f"step {t - 1}: the model ran {g[1]} times, bare {w[1]} times", name)
            g, w = g[0], w[0]
        if g[0] != w[0]:
            ctx.violate("other-exception", f"step {t - 1}: monitored {g[0]} {g[1] if g[0] != 'value' else ''}, bare {w[0]} {w[1] if w[0] != 'value' else ''}", mode)
        elif g[0] == "value":
            ctx.equal(g[1], w[1], "other-result", f"{name} {mode} step {t - 1}: monitored and bare run differ", mode, rtol=0, atol=0)
        else:
            ctx.check(g[1] == w[1], "other-exception", lambda: f"step {t - 1}: monitored {g}, bare {w}", mode)
