"""C02 - Haiku streaming: mode equivalence and crash / resume."""

import numpy as np

RUNS = {"quick": 300, "thorough": 12000}
SEARCH = "cut points, unroll modes, crash points and outage patterns"
RULE = (
    "One run feeds a simulated stream (outages, duplicates) through one module configuration, cut into segments; "
    "every segment is processed by a drawn unroll mode and may end in a crash after which only the serialised "
    "parameters and state are left; outputs, boundary states and the final state are compared with a step-by-step "
    "run. Non-trivial: at least two segments or a mode other than plain stepping."
)
STATE_MEASURE = "distinct (module configuration, mode, segment length bucket, crashed before, fault kinds in the segment)"
REAL = ["wax.unroll", "wax.stateful", "wax.transform", "wax.modules", "jax", "haiku", "optax"]
STUB = ["the observed world (simulated stream)", "process crash (all Python objects dropped, state read back from bytes)"]
ASSUMPTIONS = ["parameters and state are saved completely (pickle of the numpy trees)", "floating point differences of compiled and interpreted execution stay within tolerance"]
PROBES = ["crash", "mode-step", "mode-scan", "mode-jscan", "mode-static", "mode-unroll", "mode-fori", "mode-batch", "mode-batch_static", "mode-dynamic_unroll", "mode-static_unroll", "mode-gym", "skip-first", "lifted", "random", "state-only", "params-only", "nothing-given", "keywords"]
SHRINK_LISTS = ["segments", "plan"]
SHRINK_INTS = [("segments.*.n", 1)]

KEYWORDS = ("step", "scan", "jscan", "static", "unroll", "fori", "dynamic_unroll", "static_unroll")
MODES = ["step", "scan", "jscan", "jscan", "static", "unroll", "unroll", "fori", "batch", "batch_static", "dynamic_unroll", "static_unroll", "gym", "step"]


def gen(rng, idx, tier):
    from sim import zoo_haiku as z
    from sim.data import cuts, outages

    name, o = z.pick(rng)
    e = z.ZOO[name]
    T = rng.randrange(2, 15)
    kinds = [k for k in ("gap", "dup", "burst", "start") if rng.random() < 0.4]
    shape = rng.choice([[3], [3], [2]]) if e["vec"] else rng.choice([[], [1], [3], [2, 2]])
    segs = []
    for n in cuts(rng, T, rng.randrange(0, 4)):
        mode = rng.choice(MODES)
        if mode == "fori" and (not e["single"] or name in ("counter", "has_changed")):
            mode = "scan"
        segs.append({"n": n, "mode": mode, "crash": rng.random() < 0.5, "skip": rng.random() < 0.2, "give": rng.choice(["both", "both", "less", "none"]), "call": rng.choice(["pos", "pos", "kw", "mixed"])})
    return {
        "module": name, "opt": o, "shape": shape, "plan": outages(rng, T, kinds), "segments": segs,
        "vseed": rng.randrange(10**9), "x64": rng.random() < 0.75, "key": rng.randrange(1000),
        "lift": rng.random() < 0.15,
    }


_cache = {}


def machine(sc):
    """Transformed function and jitted step; pure, so shared between runs."""
    import haiku as hk
    import jax

    from sim import zoo_haiku as z

    k = (sc["module"], sc["opt"], sc["x64"], tuple(sc["shape"]))
    if k not in _cache:
        e = z.ZOO[sc["module"]]
        f = e["build"](e["opts"][sc["opt"] % len(e["opts"])])
        t = hk.transform_with_state(f)
        _cache[k] = (t, jax.jit(t.apply))
        if len(_cache) > 60:
            _cache.clear()
            return machine(sc)
    return _cache[k]


def fresh(sc, call="pos"):
    """A new transformed function, taking the observation as one tree or by (some) keywords."""
    import haiku as hk

    from sim import zoo_haiku as z

    e = z.ZOO[sc["module"]]
    if call != "pos":
        f = e["build"](e["opts"][sc["opt"] % len(e["opts"])])
        return hk.transform_with_state((lambda **d: f(d)) if call == "kw" else (lambda x, **d: f(dict(d, x=x))))
    return hk.transform_with_state(e["build"](e["opts"][sc["opt"] % len(e["opts"])]))


def run(sc, ctx):
    import jax
    import jax.numpy as jnp
    from jax.tree_util import tree_map

    from sim import zoo_haiku as z
    from sim.data import at, make, pickled, window

    jax.config.update("jax_enable_x64", bool(sc["x64"]))
    e = z.ZOO[sc["module"]]
    T = sum(s["n"] for s in sc["segments"])
    if T == 0 or not sc["segments"]:
        ctx.nontrivial = False
        return
    data = make(sc["vseed"], T, sc["shape"], sc["plan"], ctx)
    if not sc["x64"]:
        data = {k: v.astype(np.float32) if v.dtype == np.float64 else v.astype(np.int32) if v.dtype == np.int64 else v for k, v in data.items()}
    data = {k: jnp.asarray(v) for k, v in data.items()}
    key = jax.random.PRNGKey(sc["key"])
    ctx.sim_time = float(T)
    ctx.nontrivial = len(sc["segments"]) > 1 or sc["segments"][0]["mode"] != "step"
    tol = dict(rtol=1e-7, atol=1e-8) if sc["x64"] else dict(rtol=5e-3, atol=5e-3)

    if e["random"]:
        return run_random(sc, ctx, fresh(sc), data, key, T, tol)

    tf, jstep = machine(sc)
    p0, s0 = tf.init(key, at(data, 0))
    # the uninterrupted reference: one step at a time
    p, s = p0, s0
    ref_out, ref_states = [], []
    for t in range(T):
        y, s = jstep(p, s, None, at(data, t))
        ref_out.append(jax.device_get(y))
        ref_states.append(jax.device_get(s))

    if sc["lift"]:
        ctx.probe("lifted")
        lifted(sc, ctx, data, key, ref_out, T, tol)

    cur, params, state, t0 = tf, p0, s0, 0
    batch_state = None
    for i, seg in enumerate(sc["segments"]):
        n, mode = seg["n"], seg["mode"]
        if n <= 0:
            continue
        chunk = window(data, t0, t0 + n)
        ctx.probe("mode-" + mode)
        skip = seg["skip"] and mode not in ("step", "fori", "gym")
        if skip:
            ctx.probe("skip-first")
            chunk = {k: jnp.concatenate([v[-1:], v]) for k, v in chunk.items()}
        ctx.state(sc["module"], sc["opt"], mode, min(n, 4), i > 0 and sc["segments"][i - 1]["crash"], tuple(sorted({k for t, _, k in sc["plan"] if t0 <= t < t0 + n})))
        where = f"{mode}"
        give = given(ctx, seg, mode, skip, t0, params, s0)
        call = seg.get("call", "pos") if mode in KEYWORDS else "pos"
        tf = cur
        if call != "pos":
            ctx.probe("keywords")
            tf = fresh(sc, call)
        out, state, batch_state = process(sc, tf, jstep, mode, skip, params, state, batch_state, key, chunk, n, give, call)
        want = tree_map(lambda *a: np.stack(a), *ref_out[t0 : t0 + n])
        ctx.logv(f"{t0}+{n} {mode}", out)
        ctx.equal(out, want, "outputs", f"{sc['module']}{z.ZOO[sc['module']]['opts'][sc['opt'] % len(e['opts'])]} steps {t0}..{t0 + n - 1} processed by {mode} (skip_first={skip}, call={call})", where, **tol)
        t0 += n
        ctx.equal(state, ref_states[t0 - 1], "state", f"{sc['module']} state after step {t0 - 1} ({mode})", where, **tol)
        if seg["crash"]:
            ctx.fault("crash")
            ctx.probe("crash")
            try:
                params, state = pickled(params), pickled(state)
            except Exception as ex:
                ctx.fail("state-not-saved", f"{sc['module']}: parameters and state cannot be serialised: {type(ex).__name__}: {ex}", sc["module"])
            cur = fresh(sc)
    ctx.check(t0 == T, "steps", "not all steps processed")


def given(ctx, seg, mode, skip, t0, params, s0):
    """What unroll is told: what it is not told must be what it would initialise anyway."""
    import jax

    give = seg.get("give", "both") if mode == "unroll" else "both"
    if give == "both":
        return give
    no_params = not jax.tree_util.tree_leaves(params)
    first = t0 == 0 and not skip
    if give == "none" and first and no_params:
        ctx.probe("nothing-given")
        return "none"
    if no_params:
        ctx.probe("state-only")
        return "state"
    if first:
        ctx.probe("params-only")
        return "params"
    return "both"


def process(sc, tf, jstep, mode, skip, params, state, batch_state, key, chunk, n, give="both", call="pos"):
    """-> outputs stacked over the segment, state after it."""
    import jax
    import jax.numpy as jnp
    from jax.tree_util import tree_map

    from sim.data import at
    from wax import transform as wt
    from wax import unroll as wu
    from wax.compile import jit_init_apply

    def as_args(d):
        if call == "kw":
            return (), dict(d)
        if call == "mixed":
            return (d["x"],), {k: v for k, v in d.items() if k != "x"}
        return (d,), {}

    args, kwargs = as_args(chunk)
    if mode == "step":
        outs = []
        for t in range(n):
            a, k = as_args(at(chunk, t))
            y, state = tf.apply(params, state, None, *a, **k) if n <= 2 else jstep(params, state, None, at(chunk, t))
            outs.append(y)
        return tree_map(lambda *a: jnp.stack(a), *outs), state, None
    if mode in ("scan", "static", "jscan"):
        u = wu.unroll_transform_with_state(tf, skip_first=skip, dynamic=mode != "static")
        if mode == "jscan":
            u = jit_init_apply(u)
        out, state = u.apply(params, state, None, *args, **kwargs)
        return out, state, None
    if mode == "unroll":
        # rng only serves the initialisation that params and state replace
        u = wu.unroll(tf, skip_first=skip, dynamic=n % 2 == 0, return_final_state=True, rng=key, params=params if give in ("both", "params") else None, state=state if give in ("both", "state") else None)
        if give in ("none", "params"):
            # the wrapper has served another stream before: nothing of it may be left
            a, k = as_args({k: v[::-1] for k, v in chunk.items()})
            u(*a, **k)
        out, state = u(*args, **kwargs)
        return out, state, None
    if mode in ("dynamic_unroll", "static_unroll"):
        out, state = getattr(wu, mode)(tf, params, state, key, skip, *args, **kwargs)
        return out, state, None
    if mode == "fori":
        out, state = wu.dynamic_unroll_fori_loop(tf, params, state, key, False, *args, **kwargs)
        return out, state, None
    if mode in ("batch", "batch_static"):
        make = wt.transform_batch_with_state if mode == "batch" else wt.transform_batch_with_state_static
        b = make(tf, skip_first=skip)
        bp, bs = b.init(key, chunk)
        bs = wt.BatchState(params, state, None)
        out, fin = b.apply(bp, bs, None, chunk)
        return out, fin.fun_state, None
    if mode == "gym":
        def source():
            for t in range(n):
                yield at(chunk, t), {}

        def keys():
            k = key
            while True:
                k, sub = jax.random.split(k)
                yield sub

        out, state = wu.gym_static_unroll(tf, params, state, keys(), False, source())
        return out, state, None
    raise AssertionError(mode)


def lifted(sc, ctx, data, key, ref_out, T, tol):
    """The same module unrolled inside a transformed function, in two pieces."""
    import haiku as hk
    import jax.numpy as jnp
    from jax.tree_util import tree_map

    from sim import zoo_haiku as z
    from sim.data import pickled, window
    from wax.stateful import unroll_lift_with_state

    e = z.ZOO[sc["module"]]
    f = e["build"](e["opts"][sc["opt"] % len(e["opts"])])
    if sc["module"] in ("vmap_lift", "unroll_lift", "supervised", "online_optimizer", "func_optimizer", "snarimax", "gym_feedback"):
        return
    t = hk.transform_with_state(unroll_lift_with_state(f))
    p, s = t.init(key, data)
    k = sc["segments"][0]["n"]
    outs = []
    for a, b in ((0, k), (k, T)):
        if a < b:
            y, s = t.apply(p, s, None, window(data, a, b))
            outs.append(y)
            p, s = pickled(p), pickled(s)
    got = tree_map(lambda *a: jnp.concatenate(a), *outs)
    want = tree_map(lambda *a: np.stack(a), *ref_out)
    ctx.equal(got, want, "lifted-outputs", f"{sc['module']} unrolled by unroll_lift_with_state", "", **tol)


def run_random(sc, ctx, tf, data, key, T, tol):
    """Randomised modules: the same draws in every mode, fresh ones at every step."""
    from wax import transform as wt
    from wax import unroll as wu

    import jax

    ctx.probe("random")
    k2 = jax.random.PRNGKey(sc["key"] + 7)
    outs = {}
    for dyn in (True, False):
        u = wu.unroll_transform_with_state(tf, dynamic=dyn)
        p, s = u.init(key, data)
        outs[dyn] = u.apply(p, s, k2, data)
        ctx.logv(f"random {dyn}", outs[dyn])
    ctx.equal(outs[True], outs[False], "random-draws", "compiled and Python scan drew different keys", "scan", **tol)
    flat = dict(data, y=data["y"] * 0)
    u = wu.unroll_transform_with_state(tf)
    p, s = u.init(key, flat)
    y, _ = u.apply(p, s, k2, flat)
    y = np.asarray(y).reshape(T, -1)
    for t in range(1, T):
        ctx.check(not np.array_equal(y[t], y[t - 1]), "random-draws", f"steps {t - 1} and {t} drew the same noise", "repeat")
    b = {}
    for dyn in (True, False):
        f = (wt.transform_batch_with_state if dyn else wt.transform_batch_with_state_static)(tf)
        bp, bs = f.init(key, data)
        b[dyn] = f.apply(bp, bs, k2, data)[0]
    ctx.equal(b[True], b[False], "random-draws", "the batch transforms drew different keys for the same rng", "batch", **tol)
