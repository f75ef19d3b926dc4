"""C09 - a faulty lane never contaminates the other lanes."""

import numpy as np

RUNS = {"quick": 480, "thorough": 20000}
SEARCH = "modules, lane layouts, faults per lane and step (missing, infinite, huge, replaced, restarted), crash points and execution modes"
RULE = (
    "One run streams several lanes through one module, element by element or lifted over a batch axis, while simulated "
    "faults strike single lanes (missing, infinite and huge values, replacement by another series, a restart of the lane's "
    "state), with crashes of the whole process, and compares each lane's outputs and final state with the same lane "
    "streamed alone. Non-trivial: at least one lane suffers a fault."
)
STATE_MEASURE = "distinct (construct, module, settings, lane's fault now, other lanes' faults now, step, resumed)"
REAL = ["wax.modules", "wax.flax.modules", "wax.stateful.vmap_lift_with_state", "wax.unroll", "wax.flax.core", "jax", "haiku", "flax"]
STUB = ["the source of observations", "process crash (state read back from bytes)", "a lane's restart (its rows of the state set to their initial values)"]
ASSUMPTIONS = ["state that all lanes share by design (window positions, trained parameters of a shared model) is not a lane's state"]
PROBES = ["hk", "flax", "vmap-lift", "jax-vmap", "elementwise", "lane-restart", "inf", "crash", "mode-scan", "masks", "mode-step", "flax-vmap"]
SHRINK_LISTS = ["faults", "crash"]
SHRINK_INTS = [("T", 2), ("lanes", 2)]

# modules streamed side by side in one program; every option of each is in
BUNDLES = {
    # elementwise: the module is given all lanes as one array
    "hk-elem": {
        "stats": ["ewma", "ewma_init", "ewmvar", "ffill", "ohlc", "fill_nan_inf"],
        "windows": ["buffer", "lag", "diff", "pct_change", "rolling_mean", "chain", "update_on_event"],
    },
    "flax-elem": {
        "stats": ["ewma", "ewma_init", "ewmvar", "ffill", "ohlc"],
        "windows": ["buffer", "lag", "diff", "pct_change", "rolling_mean", "chain", "gated", "gym_feedback"],
    },
    # lifted: one copy of the module per lane
    "hk-lift": {
        "plain": ["ewma", "buffer", "rolling_mean", "ewmvar", "ohlc", "chain", "update_on_event", "counter", "lag", "has_changed", "arma", "snarimax"],
        "learners": ["supervised", "online_optimizer", "func_optimizer", "gym_feedback"],
    },
    "flax-vmap": {
        "plain": ["ewma", "buffer", "rolling_mean", "ewmvar", "ohlc", "chain", "gated", "counter", "lag", "has_changed", "ffill", "pct_change", "arma", "snarimax"],
        "learners": ["online_optimizer", "func_optimizer", "gym_feedback"],
    },
}
BUNDLES["hk-vmap"] = BUNDLES["hk-lift"]
MAX_OPTS = 4
MASKS = ["mask_mean", "mask_std", "mask_normalize", "apply_mask"]


SHARES = [
    [("hk-lift", "plain"), ("hk-lift", "plain"), ("masks", "mask_std")],
    [("hk-lift", "learners")],
    [("hk-vmap", "plain")],
    [("hk-vmap", "learners"), ("hk-vmap", "learners"), ("hk-vmap", "learners"), ("flax-stateless", "affine")],
    [("flax-vmap", "plain")],
    [("flax-vmap", "learners")],
    [("masks", "mask_std"), ("masks", "mask_normalize")],
    [("masks", m) for m in MASKS],
]


def gen(rng, idx, tier):
    # programs are compiled once per worker: a worker (index modulo 8) has its own share of the costly ones
    if rng.random() < 0.55:
        fam = rng.choice(["hk-elem", "flax-elem"])
        name = rng.choice(sorted(BUNDLES[fam]))
    else:
        fam, name = rng.choice(SHARES[idx % len(SHARES)])
    T = rng.randrange(2, 12)
    stream = fam not in ("masks", "flax-stateless")
    lanes = 3 if stream and (tier == "quick" or rng.random() < 0.8) else rng.choice([2, 3, 4])
    faults = []
    rate = rng.choice([0.5, 1.0, 2.0])
    for t in range(T):
        for k in range(lanes):
            r = rng.random() / rate
            if r < 0.12:
                faults.append([t, k, "nan"])
            elif r < 0.18:
                faults.append([t, k, rng.choice(["inf", "-inf"])])
            elif r < 0.22:
                faults.append([t, k, "huge"])
            elif r < 0.25:
                faults.append([t, k, "replace"])
            elif r < 0.3 and t:
                faults.append([t, k, "restart"])
    if name == "learners":  # keep their parameters in a range where rounding does not explode
        faults = [[t, k, "nan" if w == "huge" else w] for t, k, w in faults]
    bad = rng.randrange(lanes)
    if rng.random() < 0.5:
        faults = [f for f in faults if f[1] == bad]  # only one lane is ever at fault
    if rng.random() < 0.3:  # a lane that is silent at first
        faults = [f for f in faults if f[1] != bad] + [[t, bad, "nan"] for t in range(rng.randrange(1, 5)) if t < T]
    return {
        "fam": fam, "name": name, "T": T, "lanes": lanes, "faults": faults, "axis": rng.randrange(2), "inner": [2] if tier != "quick" and stream and rng.random() < 0.2 else [],
        "crash": sorted(set(rng.randrange(1, T) for _ in range(rng.randrange(0, 2)))), "mode": "scan" if rng.random() < (0.3 if name == "stats" else 0.03) else "step",
        "vseed": rng.randrange(10**9), "square": rng.random() < 0.5,
    }


def members(fam, bundle):
    """(label, zoo entry, options) of a bundle."""
    from sim import zoo_flax, zoo_haiku

    zoo = (zoo_haiku if fam.startswith("hk") else zoo_flax).ZOO
    out = []
    for n in BUNDLES[fam][bundle]:
        opts = zoo[n]["opts"]
        step = max(1, (len(opts) + MAX_OPTS - 1) // MAX_OPTS)
        out += [(f"{n}-{i}", zoo[n], o) for i, o in enumerate(opts) if i % step == 0]
    return out


def program(fam, bundle):
    """One program over a step's data that runs all modules of the bundle."""
    ms = members(fam, bundle)
    if fam.startswith("hk"):

        def f(d):
            return {k: z["build"](o)(d) for k, z, o in ms}

        return f
    from sim.zoo_flax import Fn

    return Fn(lambda d: {k: z["build"](o)(*z["args"](d, o)) for k, z, o in ms})


_COMPILED = {}


def compiled(fam, bundle, L):
    """(alone, alone step, batch, batch init, batch step), compiled once per process."""
    import jax

    from sim.session import transformed

    lib, how = fam.split("-")
    c = _COMPILED.get((fam, bundle, L))
    if c is None:
        alone = transformed(lib, lambda: program(fam, bundle))
        astep = jax.jit(alone.apply)
        key = jax.random.PRNGKey(0)
        ainit = jax.jit(lambda d: alone.init(key, d))
        if how == "vmap":
            batch = None
            init = jax.jit(jax.vmap(lambda d: alone.init(key, d)))
            step = jax.jit(jax.vmap(lambda p, s, d: alone.apply(p, s, None, d)))
        else:
            if how == "lift":
                from wax.stateful import vmap_lift_with_state

                batch = transformed(lib, lambda: lambda d: vmap_lift_with_state(program(fam, bundle))(d))
            else:
                batch = transformed(lib, lambda: program(fam, bundle))
            init = jax.jit(lambda d: batch.init(key, d))
            step = jax.jit(lambda p, s, d: batch.apply(p, s, None, d))
        c = _COMPILED[fam, bundle, L] = (ainit, astep, batch, init, step)
    return c


def series(sc, ctx, width):
    """x, y [T, lanes, *width] with the faults in; restarts are returned apart."""
    from sim.core import rng_for

    T, L = sc["T"], sc["lanes"]
    g = np.random.default_rng(rng_for(sc["vseed"], "lanes").randrange(2**32))
    x = np.round(g.normal(size=(T, L) + width) * 2 + 3, 3)
    y = np.round(g.normal(size=(T, L) + width), 3)
    e = g.random(T) < 0.6
    r = g.random(T) < 0.25
    n = g.integers(0, 3, size=(T, L))
    restarts = {}
    kinds = [["-"] * L for _ in range(T)]
    for t, k, what in sc["faults"]:
        if t >= T or k >= L:
            continue
        kinds[t][k] = what
        if what == "restart":
            restarts.setdefault(t, []).append(k)
        elif what == "replace":
            x[t:, k] = np.round(np.random.default_rng(t * 7 + k).normal(size=x[t:, k].shape) * 40, 2)
            ctx.fault("lane-replace")
        else:
            x[t, k] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e12}[what]
            ctx.fault("lane-" + what)
    return x, y, e, r, n, restarts, kinds


def lane_axis(b, a, L):
    """The axis on which a batch leaf (b) carries the lanes of a lane-alone leaf (a)."""
    if b == a:
        return None
    if len(b) == len(a):  # lanes replace an axis of length one
        d = [i for i in range(len(a)) if b[i] != a[i]]
        return d[0]
    for i in range(len(b)):
        if b[i] == L and b[:i] + b[i + 1 :] == a:
            return i
    raise ValueError(f"{b} {a}")


def run(sc, ctx):
    import jax

    jax.config.update("jax_enable_x64", True)
    fam = sc["fam"]
    sc["crash"] = [c for c in sc["crash"] if 0 < c < sc["T"]]
    ctx.sim_time = float(sc["T"])
    ctx.nontrivial = any(t < sc["T"] and k < sc["lanes"] for t, k, _ in sc["faults"])
    ctx.probe("mode-" + sc["mode"])
    if sc["crash"]:
        ctx.probe("crash")
    if any("inf" in w for *_, w in sc["faults"]):
        ctx.probe("inf")
    if fam == "masks":
        ctx.probe("masks")
        return run_masks(sc, ctx)
    if fam == "flax-stateless":
        ctx.probe("flax-vmap")
        return run_vmap_module(sc, ctx)
    ctx.probe("hk" if fam.startswith("hk") else "flax")
    ctx.probe({"elem": "elementwise", "lift": "vmap-lift", "vmap": "jax-vmap"}[fam.split("-")[1]])
    run_stream(sc, ctx)


def run_stream(sc, ctx):
    import jax
    import jax.numpy as jnp

    from sim.data import pickled
    from sim.session import scan, stack

    lib, how = sc["fam"].split("-")
    T, L = sc["T"], sc["lanes"]
    elem = how == "elem"
    width = tuple(sc["inner"]) if elem else (2,)
    x, y, e, r, n, restarts, kinds = series(sc, ctx, width)
    if sc["name"] == "learners":  # keep the learners stable: their rounding must not grow
        x = np.where(np.isfinite(x), np.clip(x * 0.1, -1, 1), x)
    where = sc["fam"]
    tmap = jax.tree_util.tree_map

    def step_in(t, k=None):
        """Inputs of step t for all lanes, or for lane k alone."""
        if elem:
            s = slice(None) if k is None else slice(k, k + 1)
            d = {"x": x[t, s], "y": y[t, s], "e": e[t], "r": r[t], "n": n[t, 0]}
        elif k is None:
            d = {"x": x[t], "y": y[t], "e": np.full(L, e[t]), "r": np.full(L, r[t]), "n": n[t]}
        else:
            d = {"x": x[t, k], "y": y[t, k], "e": e[t], "r": r[t], "n": n[t, k]}
        return tmap(jnp.asarray, d)

    ainit, astep, batch, init, bstep = compiled(sc["fam"], sc["name"], L)
    alone_first = [ainit(step_in(0, k)) for k in range(L)]
    p, s = init(step_in(0))
    if how == "lift":
        # every lane of the lifted module starts from its own parameters
        alone_first = [(lane_of(p, a[0], L, k, True), lane_of(s, a[1], L, k, True)) for k, a in enumerate(alone_first)]
    first = 1 if lib == "flax" else 0
    can_restart = all(np.shape(b) != np.shape(a) for a, b in zip(jax.tree_util.tree_leaves(alone_first[0][1]), jax.tree_util.tree_leaves(s)))
    lanes_state = [a[1] for a in alone_first]
    lanes_params = [a[0] for a in alone_first]
    use_scan = sc["mode"] == "scan" and how != "vmap"
    t = first
    stops = set(sc["crash"]) | (set(restarts) if can_restart else set()) | {T}
    for stop in sorted(q for q in stops if q > first):
        if use_scan and stop > t:
            ys, s = scan(lib, batch, p, s, None, [stack([step_in(q) for q in range(t, stop)])])
            outs = [tmap(lambda a: a[i], jax.device_get(ys)) for i in range(stop - t)]
        else:
            outs = []
            for q in range(t, stop):
                out, s = bstep(p, s, step_in(q))
                outs.append(jax.device_get(out))
        for i, out in enumerate(outs):
            q = t + i
            ctx.logv(f"{q}", out)
            for k in range(L):
                want, lanes_state[k] = astep(lanes_params[k], lanes_state[k], None, step_in(q, k))
                for m in out:
                    compare(sc, ctx, out[m], want[m], L, k, "output", f"{where} {m} lane {k} step {q}, faults now {kinds[q]}", f"{where}-{m}")
                ctx.state(sc["fam"], sc["name"], kinds[q][k], tuple(sorted(set(kinds[q]))), min(q, 3), tuple(sorted(set(w[k] for w in kinds[:q]))))
        t = stop
        if stop >= T:
            break
        if stop in sc["crash"]:
            ctx.fault("crash")
            p, s = pickled(p), pickled(s)
        if can_restart:
            for k in restarts.get(stop, []):
                ctx.fault("lane-restart")
                ctx.probe("lane-restart")
                s = implant(s, alone_first[k][1], L, k)
                lanes_state[k] = alone_first[k][1]
    for k in range(L):
        compare(sc, ctx, s, lanes_state[k], L, k, "state", f"{where} final state of lane {k}", where)


def lane_of(tree, like, L, k, lead=False):
    """Lane k of a batch tree, in the structure of `like`."""
    import jax

    lb, la = jax.tree_util.tree_leaves(tree), jax.tree_util.tree_leaves(like)
    out = []
    for b, a in zip(lb, la):
        i = 0 if lead else lane_axis(np.shape(b), np.shape(a), L)
        out.append(b if i is None else np.take(np.asarray(b), k, axis=i).reshape(np.shape(a)))
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(like), out)


def implant(tree, lane, L, k):
    """The batch state with lane k's rows taken from `lane`."""
    import jax

    lb, la = jax.tree_util.tree_leaves(tree), jax.tree_util.tree_leaves(lane)
    out = []
    for b, a in zip(lb, la):
        i = lane_axis(np.shape(b), np.shape(a), L)
        b = np.array(b)
        if i is not None:
            idx = [slice(None)] * b.ndim
            idx[i] = k
            b[tuple(idx)] = np.asarray(a).reshape(b[tuple(idx)].shape)
        out.append(b)
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(tree), out)


def compare(sc, ctx, batch, alone, L, k, kind, what, where):
    import jax

    lb, la = jax.tree_util.tree_leaves(batch), jax.tree_util.tree_leaves(alone)
    if not ctx.check(len(lb) == len(la), kind, f"{what}: {len(lb)} values instead of {len(la)}", where):
        return
    for b, a in zip(lb, la):
        b, a = np.asarray(b), np.asarray(a)
        try:
            i = lane_axis(b.shape, a.shape, L)
        except (ValueError, IndexError):
            ctx.violate(kind + "-shape", f"{what}: shape {b.shape}, alone {a.shape}", where)
            continue
        got = b if i is None else np.take(b, k, axis=i).reshape(a.shape)
        tol = dict(rtol=5e-3, atol=1e-4) if sc["name"] == "learners" else dict(rtol=1e-6, atol=1e-8)
        ctx.equal(got, a, kind, what, where, **tol)


def run_masks(sc, ctx):
    import haiku as hk
    import jax
    import jax.numpy as jnp

    axis, L = sc["axis"], sc["lanes"]
    K = L if sc["square"] else L + 1
    x, y, *_ = series(sc, ctx, (K,))  # [T, lanes, K]
    lib = "hk" if sc["vseed"] % 2 else "flax"
    where = f"{lib}-{sc['name']}"
    g = np.random.default_rng(sc["vseed"])
    for t in range(sc["T"]):
        m = g.random((L, K)) < 0.7
        d = x[t]
        if axis == 0:  # statistics over axis 0: the lanes are columns
            m, d = m.T, d.T
        out = masks(lib, sc["name"], axis, jnp.asarray(m), jnp.asarray(d))
        ctx.logv(f"{t}", out)
        for k in range(L):
            idx = (slice(None), slice(k, k + 1)) if axis == 0 else (slice(k, k + 1), slice(None))
            want = masks(lib, sc["name"], axis, jnp.asarray(m[idx]), jnp.asarray(d[idx]))
            o = np.asarray(out)
            got = o[idx] if o.ndim == 2 else o[k : k + 1]
            ctx.equal(got, np.asarray(want), "output", f"{where} axis {axis} lane {k} step {t} of shape {d.shape}", where, rtol=1e-6, atol=1e-8)
        ctx.state(lib, sc["name"], axis, d.shape, bool(np.isnan(d).any()), bool(np.isinf(d).any()))


def masks(lib, name, axis, m, x):
    import haiku as hk

    if lib == "hk":
        import wax.modules as M
        from wax.modules.apply_mask import ApplyMask
        from wax.modules.mask_mean import MaskMean
        from wax.modules.mask_normalize import MaskNormalize
        from wax.modules.mask_std import MaskStd

        c = {"mask_mean": lambda: MaskMean(axis=axis), "mask_std": lambda: MaskStd(axis=axis), "mask_normalize": lambda: MaskNormalize(axis=axis), "apply_mask": lambda: ApplyMask()}[name]
        return hk.transform(lambda m, x: c()(m, x)).apply({}, None, m, x)
    from wax.flax.modules.apply_mask import ApplyMask
    from wax.flax.modules.mask_mean import MaskMean
    from wax.flax.modules.mask_normalize import MaskNormalize
    from wax.flax.modules.mask_std import MaskStd

    c = {"mask_mean": lambda: MaskMean(axis=axis), "mask_std": lambda: MaskStd(axis=axis), "mask_normalize": lambda: MaskNormalize(axis=axis), "apply_mask": lambda: ApplyMask()}[name]
    return c().apply({}, m, x)


def run_vmap_module(sc, ctx):
    """Haiku add_batch / VMap and the Flax VMap over a stateless function."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    import wax.modules as M
    from wax.flax.modules.vmap import VMap as FVMap
    from wax.modules.vmap import VMap, add_batch

    T, L = sc["T"], sc["lanes"]
    x, y, *_ = series(sc, ctx, (2,))
    where = "vmap-modules"
    key = jax.random.PRNGKey(1)
    inner = lambda v: M.EWMA(com=2.0)(v) + M.Lag(1, fill_value=0.0)(v)  # noqa: E731
    fs = {
        "VMap": hk.transform_with_state(lambda v: VMap(inner)(v)),
        "add_batch": hk.transform_with_state(lambda v: add_batch(inner, take_mean=False)(v)),
    }
    alone = hk.transform_with_state(inner)
    for fname, f in fs.items():
        rng = key if fname == "add_batch" else None
        p, s = f.init(key, jnp.asarray(x[0]))
        bs = [alone.init(key, jnp.asarray(x[0, k])) for k in range(L)]
        step, astep = jax.jit(f.apply), jax.jit(alone.apply)
        for t in range(T):
            out, s = step(p, s, rng, jnp.asarray(x[t]))
            for k in range(L):
                want, st = astep(bs[k][0], bs[k][1], None, jnp.asarray(x[t, k]))
                bs[k] = (bs[k][0], st)
                ctx.equal(np.asarray(out)[k], np.asarray(want), "output", f"{fname} lane {k} step {t}", where, rtol=1e-6, atol=1e-8)
            ctx.logv(fname, out)
    fun = lambda v: jnp.tanh(v) * v.sum()  # noqa: E731
    for t in range(T):
        out = FVMap(fun=fun, take_mean=False).apply({}, jnp.asarray(x[t]))
        for k in range(L):
            ctx.equal(np.asarray(out)[k], np.asarray(fun(jnp.asarray(x[t, k]))), "output", f"flax VMap lane {k} step {t}", where, rtol=1e-6, atol=1e-8)
        ctx.state("vmap", L, t)
