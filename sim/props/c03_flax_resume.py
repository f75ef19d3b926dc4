"""C03 - Flax streaming: mode equivalence and crash / resume."""

import functools

import numpy as np

RUNS = {"quick": 240, "thorough": 10000}
SEARCH = "cut points, unroll modes, crash points and outage patterns"
RULE = (
    "One run feeds a simulated stream (outages, duplicates) through one Flax module configuration, cut into segments; "
    "every segment is processed by a drawn mode (stepping, compiled / Python unroll, stream scan, raw module.apply) and "
    "may end in a crash after which only the serialised variables are left (pickle or flax msgpack); outputs, boundary "
    "states and the final state are compared with a step-by-step run. A second stream is run through the same wrapper "
    "objects afterwards. Non-trivial: at least two segments or a mode other than plain stepping."
)
STATE_MEASURE = "distinct (module configuration, mode, segment length bucket, crashed before, fault kinds in the segment)"
REAL = ["wax.flax.core", "wax.flax.modules", "wax.unroll.static_scan", "jax", "flax", "optax"]
STUB = ["the observed world (simulated stream)", "process crash (all Python objects dropped, variables read back from bytes)"]
ASSUMPTIONS = ["variables are saved completely (pickle or flax.serialization)", "floating point differences of compiled and interpreted execution stay within tolerance"]
PROBES = ["crash-pickle", "crash-msgpack", "skip-first", "random", "reuse", "again", "causal", "state-only", "nothing-given", "via-create", "via-maker", "keywords"] + ["mode-" + m for m in ("step", "jstep", "scan", "jscan", "static", "unroll", "unroll_static", "raw", "with_state", "stream_scan", "scan_apply")]
SHRINK_LISTS = ["segments", "plan"]
SHRINK_INTS = [("segments.*.n", 1)]

MODES = ["step", "jstep", "scan", "jscan", "static", "unroll", "unroll_static", "raw", "with_state", "stream_scan", "scan_apply"]
EAGER = ["step", "raw", "with_state"]


def gen(rng, idx, tier):
    from sim import zoo_flax as z
    from sim.data import cuts, outages

    name, o = z.pick(rng)
    e = z.ZOO[name]
    T = rng.randrange(2, 15)
    kinds = [k for k in ("gap", "dup", "burst", "start") if rng.random() < 0.4]
    shape = rng.choice([[3], [3], [2]]) if e["vec"] else rng.choice([[], [1], [3], [2, 2]])
    segs = []
    for n in cuts(rng, T, rng.randrange(0, 4)):
        segs.append({"n": n, "mode": rng.choice(MODES if e["trace"] else EAGER), "crash": rng.choice(["", "", "pickle", "msgpack"]), "skip": rng.random() < 0.2, "rng": rng.random() < 0.4, "state_only": rng.random() < 0.4, "call": rng.choice(["pos", "pos", "kw", "mixed"])})
    return {
        "module": name, "opt": o, "shape": shape, "plan": outages(rng, T, kinds), "segments": segs,
        "via": rng.choice(["", "create", "maker"]), "vseed": rng.randrange(10**9), "x64": rng.random() < 0.75, "key": rng.randrange(1000), "reuse": rng.random() < 0.3,
    }


_cache = {}


def entry_of(sc):
    from sim import zoo_flax as z

    e = z.ZOO[sc["module"]]
    return e, e["opts"][sc["opt"] % len(e["opts"])]


def fresh(sc):
    """A new module: from its class, or through its factory function."""
    from sim import zoo_flax as z

    e, o = entry_of(sc)
    made = z.factories().get(sc["module"]) if sc.get("via") == "create" else None
    return made(o) if made else e["build"](o)


def machine(sc):
    import jax

    from sim import zoo_flax as z

    k = (sc["module"], sc["opt"], sc["x64"], tuple(sc["shape"]))
    if k not in _cache:
        if len(_cache) > 60:
            _cache.clear()
        e, o = entry_of(sc)
        m = e["build"](o)
        tf = z.transformed(m)
        _cache[k] = (m, tf, jax.jit(tf.apply) if e["trace"] else tf.apply)
    return _cache[k]


def run(sc, ctx):
    import jax
    import jax.numpy as jnp
    from jax.tree_util import tree_map

    from sim import zoo_flax as z
    from sim.data import at, make, window

    jax.config.update("jax_enable_x64", bool(sc["x64"]))
    e, o = entry_of(sc)
    T = sum(s["n"] for s in sc["segments"])
    if T == 0 or not sc["segments"]:
        ctx.nontrivial = False
        return
    data = make(sc["vseed"], T, sc["shape"], sc["plan"], ctx)
    if not sc["x64"]:
        data = {k: v.astype(np.float32) if v.dtype == np.float64 else v.astype(np.int32) if v.dtype == np.int64 else v for k, v in data.items()}
    data = {k: jnp.asarray(v) for k, v in data.items()}
    key = jax.random.PRNGKey(sc["key"])
    ctx.sim_time = float(T)
    ctx.nontrivial = len(sc["segments"]) > 1 or sc["segments"][0]["mode"] != "step"
    tol = {} if sc["x64"] else dict(rtol=5e-3, atol=5e-3)
    if e["random"]:
        return run_random(sc, ctx, data, key, T, tol)

    if sc["module"] in ("online_optimizer", "func_optimizer", "streaming_optimizer", "snarimax"):
        tol = dict(rtol=1e-3, atol=1e-3)  # their parameters are float32 in any case
    m, tf, jstep = machine(sc)
    name = f"{sc['module']}{o}"

    def reference(d):
        p, s = tf.init(key, *e["args"](at(d, 0), o))
        s0, out, states = s, [], []
        for t in range(T):
            y, s = jstep(p, s, None, *e["args"](at(d, t), o))
            out.append(jax.device_get(y))
            states.append(jax.device_get(s))
        return p, s0, out, states

    p0, s0, ref_out, ref_states = reference(data)
    saved0 = jax.device_get((p0, s0))
    cur, params, state, t0 = m, p0, s0, 0
    if sc.get("via"):
        ctx.probe("via-" + sc["via"])
        cur = fresh(sc)
    for i, seg in enumerate(sc["segments"]):
        n, mode = seg["n"], seg["mode"]
        if n <= 0:
            continue
        chunk = window(data, t0, t0 + n)
        skip = seg["skip"] and mode in ("scan", "jscan", "static", "unroll", "unroll_static")
        if skip:
            ctx.probe("skip-first")
            chunk = {k: jnp.concatenate([v[-1:], v]) for k, v in chunk.items()}
        ctx.probe("mode-" + mode)
        ctx.state(sc["module"], sc["opt"], mode, min(n, 4), i > 0 and sc["segments"][i - 1]["crash"], tuple(sorted({k for t, _, k in sc["plan"] if t0 <= t < t0 + n})))
        out, state = process(sc, ctx, cur, jstep, mode, skip, params, state, key if seg["rng"] else None, chunk, n, seg.get("state_only", False), seg.get("call", "pos"))
        want = tree_map(lambda *a: np.stack(a), *ref_out[t0 : t0 + n])
        ctx.logv(f"{t0}+{n} {mode}", out)
        ctx.equal(out, want, "outputs", f"{name} steps {t0}..{t0 + n - 1} processed by {mode} (skip_first={skip})", mode, **tol)
        t0 += n
        ctx.equal(state, ref_states[t0 - 1], "state", f"{name} state after step {t0 - 1} ({mode})", mode, **tol)
        if seg["crash"]:
            ctx.fault("crash")
            ctx.probe("crash-" + seg["crash"])
            params, state = restored(ctx, seg["crash"], params, state, saved0, name)
            cur = fresh(sc)
    ctx.check(t0 == T, "steps", "not all steps processed")
    ctx.equal(jax.device_get((p0, s0)), saved0, "saved-state-changed", f"{name}: the initial variables were modified by the run", "", rtol=0, atol=0)

    # causality: the future is replaced, the past must not move
    k = sc["segments"][0]["n"]
    if k < T and e["trace"]:
        ctx.probe("causal")
        from wax.flax.core.unroll import flax_unroll_transform

        d2 = {q: jnp.concatenate([v[:k], v[k:][::-1] + 1 if v.dtype.kind != "b" else ~v[k:]]) for q, v in data.items()}
        a = e["args"](d2, o) if not arrays_only(sc) else None
        if a is not None:
            out, _ = flax_unroll_transform(wrap(sc, m)).apply(p0, s0, None, *a)
            want = tree_map(lambda *x: np.stack(x), *ref_out[:k])
            ctx.equal(tree_map(lambda x: x[:k], out), want, "causality", f"{name}: outputs before step {k} depend on later inputs", "", **tol)

    if sc["reuse"]:
        # the same wrapper objects, another stream: nothing of the first may be left
        ctx.probe("reuse")
        d2 = {q: v[::-1] for q, v in data.items()}
        p1, s1 = z.transformed(fresh(sc)).init(key, *e["args"](at(d2, 0), o))
        q1, r1 = tf.init(key, *e["args"](at(d2, 0), o))
        ctx.equal((q1, r1), (p1, s1), "reused-wrapper", f"{name}: init of a used wrapper differs from a new one", "", **tol)
        for t in range(min(3, T)):
            y, r1 = tf.apply(q1, r1, None, *e["args"](at(d2, t), o))
            w, s1 = jstep(p1, s1, None, *e["args"](at(d2, t), o))
            ctx.equal(y, w, "reused-wrapper", f"{name}: step {t} of the second stream", "", **tol)
        if e["trace"] and not arrays_only(sc):
            from wax.flax.core.unroll import flax_unroll

            # neither parameters nor state given: every call starts a stream of its own
            ctx.probe("nothing-given")
            f = flax_unroll(wrap(sc, m), return_final_state=True, rng=key)
            f(*stacked(sc, data))
            got = f(*stacked(sc, d2))
            want = flax_unroll(wrap(sc, fresh(sc)), return_final_state=True, rng=key)(*stacked(sc, d2))
            ctx.equal(got, want, "reused-wrapper", f"{name}: second stream through one flax_unroll function", "unroll", **tol)


def arrays_only(sc):
    """Entries whose per-step arguments are not just rows of the stacked data."""
    return sc["module"] in ("counter", "arma", "snarimax", "online_optimizer", "func_optimizer", "streaming_optimizer")


class _Step:
    pass


def wrap(sc, m):
    """What the unroll functions accept: the module, or (init, apply)."""
    from sim import zoo_flax as z

    import flax.linen as nn

    if sc.get("via") == "maker" and isinstance(m, nn.Module):
        # a function that makes the module
        from wax.flax.core.unroll import create_flax_module_factory

        return create_flax_module_factory(type(m), **{f: getattr(m, f) for f in m.__dataclass_fields__ if f not in ("parent", "name")})
    return m if isinstance(m, nn.Module) else z.transformed(m)


def stacked(sc, chunk):
    import jax

    e, o = entry_of(sc)
    return jax.vmap(lambda d: e["args"](d, o))(chunk)


def process(sc, ctx, m, jstep, mode, skip, params, state, rng, chunk, n, state_only=False, call="pos"):
    """-> outputs stacked over the segment, state after it."""
    import jax
    import jax.numpy as jnp
    from jax.tree_util import tree_map

    from sim import zoo_flax as z
    from sim.data import at
    from wax.flax.core import streaming_transforms as st
    from wax.flax.core.unroll import flax_unroll, flax_unroll_transform

    import flax.linen as nn

    e, o = entry_of(sc)
    names = keywords(m, call)

    def called(f, *args):
        """f's inputs by position, by keyword, or the first by position and the others by keyword."""
        k = len(args) if names is None else 0 if call == "kw" else 1
        if k < len(args):
            ctx.probe("keywords")
        return f(*args[:k], **{q: v for q, v in list(zip(names or (), args))[k:]})

    stack = lambda outs: tree_map(lambda *a: jnp.stack([jnp.asarray(q) for q in a]), *outs)  # noqa: E731
    if mode in ("raw", "with_state") and not isinstance(m, nn.Module):
        mode = "step"
    if mode == "stream_scan" and (len(stacked(sc, at_one(chunk))) != 1 or sc["module"] in ("streaming_optimizer", "gym_feedback", "wrapped")):
        mode = "jscan"
    if mode == "scan_apply" and (len(stacked(sc, at_one(chunk))) != 1 or sc["module"] in ("gym_feedback", "wrapped")):
        mode = "scan"
    if mode in ("step", "jstep"):
        f = jstep if mode == "jstep" or (e["trace"] and n > 2) else z.transformed(m).apply
        outs = []
        for t in range(n):
            step = functools.partial(f, params, state, rng)
            y, state = step(*e["args"](at(chunk, t), o)) if f is jstep else called(step, *e["args"](at(chunk, t), o))
            outs.append(y)
        return stack(outs), state
    if mode == "with_state":
        from wax.flax.core.state_utils import apply_with_state

        outs = []
        for t in range(n):
            y, new = called(functools.partial(apply_with_state, m, {"params": params, **state}), *e["args"](at(chunk, t), o))
            state = type(state)({c: new.get(c, v) for c, v in state.items()})
            outs.append(y)
        return stack(outs), state
    if mode == "raw":
        outs = []
        for t in range(n):
            y, new = m.apply({"params": params, **state}, *e["args"](at(chunk, t), o), mutable=list(state.keys()) or ["state"])
            state = type(state)({**state, **new})
            outs.append(y)
        return stack(outs), state
    args = stacked(sc, chunk)
    if not args and mode in ("scan", "jscan", "static", "unroll", "unroll_static"):
        # modules without inputs cannot be unrolled over a sequence
        outs = []
        for t in range(n):
            y, state = jstep(params, state, rng)
            outs.append(y)
        return stack(outs), state
    if mode in ("scan", "jscan", "static"):
        u = flax_unroll_transform(wrap(sc, m), skip_first=skip, dynamic=mode != "static")
        return called(functools.partial(jax.jit(u.apply) if mode == "jscan" else u.apply, params, state, rng), *args)
    if mode in ("unroll", "unroll_static"):
        alone = state_only and not jax.tree_util.tree_leaves(params)
        if alone:
            ctx.probe("state-only")
        f = flax_unroll(
            wrap(sc, m), skip_first=skip, dynamic=mode == "unroll", return_final_state=True,
            rng=jax.random.PRNGKey(sc["key"]) if alone else rng, params=None if alone else params, state=state,
        )
        return called(f, *args)
    if mode == "stream_scan":
        if not isinstance(m, nn.Module):
            return m.scan(params, state, rng, args[0])
        s = st.streaming_transform_with_state(lambda x: fresh(sc)(x))
        return via_fn(s.scan, sc, params, state, rng, args)
    if mode == "scan_apply":
        s = st.streaming_scan(lambda x: fresh(sc)(x)) if isinstance(m, nn.Module) else None
        if s is None:
            return m.scan(params, state, rng, args[0])
        return via_fn(lambda p, q, r, x: s.scan_apply(x, params=p, state=q, rng=r), sc, params, state, rng, args)
    raise AssertionError(mode)


def keywords(m, call):
    """The names of a module's inputs, where they have names."""
    import inspect

    import flax.linen as nn

    if call == "pos" or not isinstance(m, nn.Module):
        return None
    ps = list(inspect.signature(type(m).__call__).parameters.values())[1:]
    return None if any(p.kind != p.POSITIONAL_OR_KEYWORD for p in ps) else [p.name for p in ps]


def at_one(chunk):
    return {k: v[:1] for k, v in chunk.items()}


def via_fn(scan, sc, params, state, rng, args):
    """A module used inside a streaming function keeps its variables one level down."""
    name = type(fresh(sc)).__name__ + "_0"
    down = {c: {name: v} for c, v in state.items()}
    p = {name: params} if params else params
    out, fin = scan(p, type(state)(down), rng, args[0])
    return out, type(state)({c: v[name] for c, v in fin.items()})


def restored(ctx, kind, params, state, template, name):
    from sim.data import pickled

    try:
        if kind == "pickle":
            return pickled(params), pickled(state)
        from flax import serialization as ser

        p = ser.from_bytes(template[0], ser.to_bytes(params)) if params else params
        return p, ser.from_bytes(template[1], ser.to_bytes(state))
    except Exception as ex:
        ctx.fail("state-not-saved", f"{name}: variables cannot be serialised by {kind}: {type(ex).__name__}: {ex}", kind)


def run_random(sc, ctx, data, key, T, tol):
    import jax

    from sim.data import at
    from wax.flax.core.unroll import flax_unroll_transform

    ctx.probe("random")
    e, o = entry_of(sc)
    m = fresh(sc)
    k2 = jax.random.PRNGKey(sc["key"] + 7)
    res = {}
    v = m.init({"params": key, "default": key}, *e["args"](at(data, 0), o))
    p = v.get("params", {})
    from flax.core import FrozenDict

    s = FrozenDict({k: x for k, x in v.items() if k != "params"})
    for dyn in (True, False):
        res[dyn] = flax_unroll_transform(m, dynamic=dyn).apply(p, s, k2, *e["args"](data, o))
    ctx.equal(res[True], res[False], "random-draws", "compiled and Python unroll drew different keys", "scan", **tol)
    y = np.asarray(res[True][0]).reshape(T, -1)
    for t in range(1, T):
        ctx.check(not np.array_equal(y[t], y[t - 1]), "random-draws", f"steps {t - 1} and {t} drew the same noise", "repeat")
    again = flax_unroll_transform(m).apply(p, s, k2, *e["args"](data, o))
    ctx.probe("again")
    ctx.equal(again, res[True], "random-draws", "the same key gave another run", "again", **tol)
    ctx.logv("random", res[True])
