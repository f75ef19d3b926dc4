"""C07 - windows, lags and buffers hold the latest observations in order."""

import numpy as np

RUNS = {"quick": 480, "thorough": 15000}
SEARCH = "module settings, delivery patterns, wrap-arounds, crash points and uptimes"
RULE = (
    "One run delivers a simulated stream (losses, duplicates, missing values) to one Haiku or Flax window module and "
    "compares every output with a reference that keeps the plain list of everything delivered; deliveries are lost or "
    "repeated, the process crashes and resumes from saved state, and Flax circular buffers are advanced to an uptime "
    "near their counter's limit. Non-trivial: at least one wrap-around of the window."
)
STATE_MEASURE = "distinct (module, settings, filled part of the window, position in the ring, missing value in the window, resumed before)"
REAL = ["wax.modules", "wax.flax.modules", "jax", "haiku", "flax"]
STUB = ["the delivery of observations (lost, duplicated, delayed)", "process crash (state read back from bytes)", "uptime of billions of steps (ring counter moved by whole turns)"]
ASSUMPTIONS = ["moving a ring buffer's counter by whole turns gives the state that many further deliveries of the same data would give", "Flax initialisation delivers its example observation (the tests require it)"]
PROBES = ["wrap", "crash", "uptime", "lib-hk", "lib-flax", "nan-in-window", "mode-scan", "mode-step", "decorated", "factory"]
SHRINK_LISTS = ["deliver"]
SHRINK_INTS = [("size", 1)]

KINDS = {
    "hk": ["buffer", "buffer_state", "lag", "lag_state", "tree_lag", "diff", "pct_pad", "pct_none", "rolling"],
    "flax": ["buffer", "buffer_state", "lag", "lag_state", "tree_lag", "diff", "pct_pad", "pct_none", "rolling", "c_none", "c_downsample", "c_quantile", "c_ewma", "c_sketching", "hier", "attn"],
}


def gen(rng, idx, tier):
    lib = rng.choice(["hk", "flax", "flax"])
    kind = rng.choice(KINDS[lib])
    comp = kind.startswith("c_") or kind in ("hier", "attn")
    size = rng.choice([1, 2, 3, 4, 5, 7])
    T = rng.randrange(2, 30 if comp else 18)
    if kind == "hier" and rng.random() < 0.4:
        T = rng.randrange(50, 60)
    # what the channel does: each item delivers observation number k
    seq, k = [], 0
    for _ in range(T):
        r = rng.random()
        if r < 0.1 and seq:
            seq.append([seq[-1][0], "dup"])
        elif r < 0.2:
            k += rng.randrange(1, 4)
            seq.append([k, "lost-before"])
        else:
            seq.append([k, ""])
        k += 1
    for s in seq:
        if rng.random() < 0.1 and not comp:
            s[1] = "nan"
    return {
        "lib": lib, "kind": kind, "size": size, "size2": rng.choice([2, 3, 6]), "min_periods": rng.randrange(1, size + 1), "fill": rng.choice([None, 0.0, -7.0]),
        "factor": rng.choice([2, 3]), "zero": rng.random() < 0.5, "shape": [] if comp else rng.choice([[], [2], [2, 2], [1]]),
        "dtype": "f8" if comp else rng.choice(["f8", "f8", "f4", "i8", "b1"]), "deliver": seq, "vseed": rng.randrange(10**9),
        "crash": sorted(set(rng.randrange(0, T) for _ in range(rng.randrange(0, 3)))), "uptime": rng.randrange(T) if rng.random() < 0.4 else None,
        "mode": "step" if comp else rng.choice(["step", "scan"]), "made": rng.choice(["full", "full", "defaults", "factory"]),
    }


def norm(sc):
    """Settings the module accepts."""
    k = sc["kind"]
    if k in ("diff", "pct_pad", "pct_none", "rolling", "tree_lag") and sc["dtype"] in ("i8", "b1"):
        sc["dtype"] = "f8"
    if sc["dtype"] in ("i8", "b1") and sc["fill"] is None:
        sc["fill"] = 0.0
    if k in ("diff", "pct_pad", "pct_none"):
        sc["size"] = 1
    if k == "attn":
        sc["shape"] = [[], [2], [6]][sc["size2"] % 3 if sc["size2"] != 6 else 1]
        sc["size"] = min(sc["size"], 4)
        sc["deliver"] = sc["deliver"][:12]
    if decorated(sc):
        sc["fill"] = None
    return sc


def decorated(sc):
    """The memory comes from its streaming decorator instead of the module."""
    return sc["lib"] == "flax" and sc["zero"] and (sc["kind"].startswith("c_") or sc["kind"] in ("hier", "attn"))


def memory(sc):
    from wax.flax.core.advanced_state_patterns import streaming_attention_state
    from wax.flax.modules.compressed_buffer import streaming_compressed_memory, streaming_hierarchical_memory

    k, m = sc["kind"], build_flax(sc)
    if k == "attn":
        return streaming_attention_state(embed_dim=4, num_heads=sc["factor"] // 2 + 1, max_history=sc["size"])(lambda out, x: {q: out[q] for q in SHOWN})
    if k == "hier":
        return streaming_hierarchical_memory(m.recent_maxlen, m.medium_maxlen, m.long_maxlen, m.medium_compression, m.long_compression)(lambda levels, x: levels)
    return streaming_compressed_memory(maxlen=m.maxlen, compression=m.compression, compression_params=m.compression_params)(lambda held, x: held)


SHOWN = ("original_state", "relevant_history", "attention_weights", "enhanced_state", "current_state")


def optional(sc):
    """Arguments of the relative change and the rolling mean; left out at their defaults in a part of the runs."""
    out = sc["made"] != "full"
    return {} if out and sc["zero"] else {"fillna_zero": sc["zero"]}, () if out and sc["min_periods"] == 1 else (sc["min_periods"],)


def build_hk(sc):
    import wax.modules as M
    from wax.modules.lag import tree_lag

    k, n, kw = sc["kind"], sc["size"], {} if sc["fill"] is None else {"fill_value": sc["fill"]}
    zero, least = optional(sc)
    return {
        "buffer": lambda x: M.Buffer(n, **kw)(x),
        "buffer_state": lambda x: tuple(M.Buffer(n, return_state=True, **kw)(x)),
        "lag": lambda x: M.Lag(n, **kw)(x),
        "lag_state": lambda x: tuple(M.Lag(n, return_state=True, **kw)(x)),
        "tree_lag": lambda x: tree_lag(n)(x, {"a": x * 2}, None),
        "diff": lambda x: M.Diff()(x),
        "pct_pad": lambda x: M.PctChange(**zero)(x),
        "pct_none": lambda x: M.PctChange(fill_method="none", **zero)(x),
        "rolling": lambda x: M.RollingMean(n, *least)(x),
    }[k]


def Attention(embed, heads, held):
    """What the attention over past states shows of its history."""
    import flax.linen as nn

    from wax.flax.core.advanced_state_patterns import AttentionBasedStateSelector

    class Shown(nn.Module):
        @nn.compact
        def __call__(self, x):
            r = AttentionBasedStateSelector(embed_dim=embed, num_heads=heads, max_history_length=held, name="attn")(x)
            return {k: r[k] for k in SHOWN}

    return Shown()


def build_flax(sc):
    import flax.linen as nn

    import wax.flax.modules as M
    from wax.flax.modules.compressed_buffer import CompressedBuffer, HierarchicalBuffer
    from wax.flax.modules.lag import tree_lag

    class Fn(nn.Module):
        @nn.compact
        def __call__(self, x):
            return tree_lag(n)(x, {"a": x * 2}, None)

    k, n, kw = sc["kind"], sc["size"], {} if sc["fill"] is None else {"fill_value": sc["fill"]}
    if k.startswith("c_"):
        c = k[2:]
        params = {"downsample": {"factor": sc["factor"]}, "ewma": {"alpha": 0.3}, "quantile": {"percentiles": [0.0, 0.5, 1.0]}, "sketching": {"num_hashes": 2, "num_buckets": 16}}.get(c)
        return CompressedBuffer(maxlen=n, compression=c, compression_params=params, **kw)
    if k == "attn":
        return Attention(embed=4, heads=sc["factor"] // 2 + 1, held=n)
    if k == "hier":
        return HierarchicalBuffer(recent_maxlen=n, medium_maxlen=sc["size2"], long_maxlen=sc["size2"] + 1, medium_compression="none", long_compression=["downsample", "none"][sc["factor"] % 2], **kw)
    zero, least = optional(sc)
    if sc["made"] == "factory" and k != "tree_lag":
        import importlib

        def create(mod, *a, **k2):
            return getattr(importlib.import_module("wax.flax.modules." + mod), "create_" + mod)(*a, **k2)

        return {
            "buffer": lambda: create("buffer", n, **kw),
            "buffer_state": lambda: create("buffer", n, return_state=True, **kw),
            "lag": lambda: create("lag", n, **kw),
            "lag_state": lambda: create("lag", n, return_state=True, **kw),
            "diff": lambda: create("diff"),
            "pct_pad": lambda: create("pct_change", **zero),
            "pct_none": lambda: create("pct_change", fill_method="none", **zero),
            "rolling": lambda: create("rolling_mean", n, *least),
        }[k]()
    return {
        "buffer": lambda: M.Buffer(n, **kw),
        "buffer_state": lambda: M.Buffer(n, return_state=True, **kw),
        "lag": lambda: M.Lag(n, **kw),
        "lag_state": lambda: M.Lag(n, return_state=True, **kw),
        "tree_lag": lambda: Fn(),
        "diff": lambda: M.Diff(),
        "pct_pad": lambda: M.PctChange(**zero),
        "pct_none": lambda: M.PctChange(fill_method="none", **zero),
        "rolling": lambda: M.RollingMean(n, *least),
    }[k]()


# ------------------------------------------------------------------ reference


def window(hist, n, fill, shape, dtype):
    w = [np.full(shape, fill, dtype) for _ in range(max(n - len(hist), 0))] + list(hist[-n:])
    return np.stack(w)


class Ref:
    """What the module has to return after each delivery, from the list of deliveries."""

    params = None

    def __init__(self, sc):
        self.sc = sc
        self.hist = []
        self.shape = tuple(sc["shape"])

    def fill(self, comp=False):
        f = self.sc["fill"]
        return (0.0 if comp else np.nan) if f is None else f

    def push(self, x):
        self.hist.append(x)
        return getattr(self, "r_" + self.sc["kind"])(x)

    def win(self, n, hist=None, fill=None):
        return window(self.hist if hist is None else hist, n, self.fill() if fill is None else fill, self.shape, self.hist[-1].dtype)

    def r_buffer(self, x):
        return self.win(self.sc["size"])

    def r_buffer_state(self, x):
        n = self.sc["size"]
        return self.win(n), self.win(n), min(len(self.hist), n)

    def r_lag(self, x):
        return self.win(self.sc["size"] + 1)[0]

    def r_lag_state(self, x):
        n = self.sc["size"] + 1
        return self.win(n)[0], self.win(n), min(len(self.hist), n)

    def r_tree_lag(self, x):
        w = window(self.hist, self.sc["size"] + 1, np.nan, self.shape, x.dtype)[0]
        return w, {"a": w * 2}, None

    def r_diff(self, x):
        w = window(self.hist, 2, np.nan, self.shape, x.dtype)
        return w[1] - w[0]

    def pct(self, x, prev):
        with np.errstate(all="ignore"):
            y = x / prev - 1.0
        return np.where(np.isnan(x) & ~np.isnan(prev), 0.0, y) if self.sc["zero"] else y

    def r_pct_pad(self, x):
        f, last = [], np.full(self.shape, np.nan, x.dtype)
        for h in self.hist:
            last = np.where(np.isnan(h), last, h)
            f.append(last)
        return self.pct(x, f[-2] if len(f) > 1 else np.full(self.shape, np.nan, x.dtype))

    def r_pct_none(self, x):
        return self.pct(x, self.hist[-2] if len(self.hist) > 1 else np.full(self.shape, np.nan, x.dtype))

    def r_rolling(self, x):
        w = np.stack(self.hist[-self.sc["size"] :])
        ok = ~np.isnan(w)
        with np.errstate(all="ignore"):
            m = np.where(ok, w, 0).sum(0) / ok.sum(0)
        return np.where(ok.sum(0) >= self.sc["min_periods"], m, np.nan)

    def r_c_none(self, x):
        return self.win(self.sc["size"], fill=self.fill(True))

    def r_c_downsample(self, x):
        f = self.sc["factor"]
        return self.win(max(1, self.sc["size"] // f), self.hist[::f], self.fill(True))

    def r_c_ewma(self, x):
        num = den = 0.0
        for h in self.hist:
            num, den = num * 0.7 + h, den * 0.7 + 1
        return num / den

    def r_c_quantile(self, x):
        k = (len(self.hist) - 1) // 10 * 10 + 1
        w = self.win(self.sc["size"], self.hist[:k], self.fill(True))
        return np.quantile(w, [0.0, 0.5, 1.0])

    def r_c_sketching(self, x):
        return None  # only its total count is known without its hash functions

    def r_hier(self, x):
        m, l = self.hist[::5], self.hist[::50]
        n2 = self.sc["size2"]
        long = self.win(max(1, (n2 + 1) // 2), l[::2], self.fill(True)) if self.sc["factor"] % 2 == 0 else self.win(n2 + 1, l, self.fill(True))
        return {"recent": self.win(self.sc["size"], fill=self.fill(True)), "medium": self.win(n2, m, self.fill(True)), "long": long, "input": x}


    def r_attn(self, x):
        """All states held before this one, oldest first; the attention over them from the module's own weights."""
        (P,) = self.params.values()
        dense = lambda w, v: v @ np.asarray(w["kernel"], np.float64) + np.asarray(w["bias"], np.float64)  # noqa: E731
        emb = []
        for h in self.hist:
            v = np.zeros(4)
            flat = np.atleast_1d(h)[:4]
            v[: len(flat)] = flat
            emb.append(dense(P["state_encoder"], v))
        held = np.array(emb[:-1][-self.sc["size"] :])
        now = emb[-1]
        if len(held) < 2:
            return {"original_state": now, "relevant_history": np.zeros((1, 4)), "attention_weights": np.array([0.0]), "enhanced_state": now, "current_state": x}
        proj = lambda n, v: np.einsum("...e,ehd->...hd", v, np.asarray(P["attention"][n]["kernel"], np.float64)) + np.asarray(P["attention"][n]["bias"], np.float64)  # noqa: E731
        q, k, v = proj("query", dense(P["query_encoder"], now)), proj("key", held), proj("value", held)
        a = np.einsum("hd,nhd->hn", q, k) / np.sqrt(q.shape[-1])
        a = np.exp(a - a.max(1, keepdims=True))
        a /= a.sum(1, keepdims=True)
        o = np.einsum("hn,nhd->hd", a, v)
        ctx = np.einsum("hd,hde->e", o, np.asarray(P["attention"]["out"]["kernel"], np.float64)) + np.asarray(P["attention"]["out"]["bias"], np.float64)
        return {"original_state": now, "relevant_history": held, "attention_weights": np.full(len(held), 1.0 / len(held)), "enhanced_state": now + 0.1 * ctx, "current_state": x}


# ------------------------------------------------------------------ the run


def observations(sc, n):
    from sim.core import rng_for

    g = np.random.default_rng(rng_for(sc["vseed"], "obs").randrange(2**32))
    x = np.round(g.normal(size=(n,) + tuple(sc["shape"])) * 3 + 5, 2)
    if sc["dtype"] == "i8":
        return np.arange(n * int(np.prod(sc["shape"]) or 1)).reshape(x.shape).astype(np.int64)
    if sc["dtype"] == "b1":
        return x > 5
    return x.astype(sc["dtype"])


def far_ahead(tree, maxlen_of):
    """Move every ring counter of a Flax state by whole turns to just below 2**31."""
    from flax.core import FrozenDict, unfreeze

    d = unfreeze(tree)
    hit = []

    def walk(t):
        if not isinstance(t, dict):
            return
        if "write_idx" in t and "buffer" in t:
            n = t["buffer"].shape[0]
            w = int(t["write_idx"])
            turns = (2**31 - 1 - w - 3) // n
            t["write_idx"] = np.asarray(w + turns * n, dtype=np.int32)
            hit.append(n)
        for v in t.values():
            walk(v)

    walk(d)
    return FrozenDict(d), bool(hit)


def run(sc, ctx):
    import jax
    import jax.numpy as jnp

    from sim.data import pickled

    jax.config.update("jax_enable_x64", True)
    sc = norm(sc)
    deliver = sc["deliver"]
    T = len(deliver)
    if T < 2:
        ctx.nontrivial = False
        return
    obs = observations(sc, max(k for k, _ in deliver) + 1)
    xs = []
    for k, what in deliver:
        x = np.array(obs[k])
        if what == "nan" and x.dtype.kind == "f":
            if x.ndim:
                x.reshape(-1)[0] = np.nan
            else:
                x = np.array(np.nan, x.dtype)
            ctx.fault("data-nan")
        elif what in ("dup", "lost-before"):
            ctx.fault("delivery-" + what)
        xs.append(x)
    ctx.sim_time = float(T)
    ctx.probe("lib-" + sc["lib"])
    if sc["lib"] == "flax" and sc["made"] == "factory":
        ctx.probe("factory")
    ctx.probe("mode-" + sc["mode"])
    comp = sc["kind"].startswith("c_") or sc["kind"] in ("hier", "attn")
    where = f"{sc['lib']}-{sc['kind']}"
    ref = Ref(sc)
    if sc["lib"] == "hk":
        import haiku as hk

        make = lambda: hk.transform_with_state(build_hk(sc))  # noqa: E731
        tf = make()
        p, s = tf.init(jax.random.PRNGKey(0), jnp.asarray(xs[0]))
        first = 0
    else:
        from wax.flax.core.transform import flax_transform_with_state

        make = lambda: memory(sc) if decorated(sc) else flax_transform_with_state(build_flax(sc))  # noqa: E731
        if decorated(sc):
            ctx.probe("decorated")
        tf = make()
        p, s = tf.init(jax.random.PRNGKey(0), jnp.asarray(xs[0]))
        ref.params = jax.device_get(p)
        ref.push(xs[0])
        first = 1
    wraps = sc["size"] < T
    ctx.nontrivial = wraps
    if wraps:
        ctx.probe("wrap")
    step = jax.jit(tf.apply) if not comp else tf.apply
    stops = sorted(set([t for t in sc["crash"] if first <= t < T] + ([sc["uptime"]] if sc["uptime"] is not None and first <= sc["uptime"] < T else []) + [T]))
    resumed = False
    t = first
    for stop in stops:
        if sc["mode"] == "scan" and stop > t:
            outs, s = scan(sc, tf, p, s, jnp.stack([jnp.asarray(x) for x in xs[t:stop]]))
            outs = [jax.tree_util.tree_map(lambda a: a[i], outs) for i in range(stop - t)]
        else:
            outs = []
            for i in range(t, stop):
                y, s = step(p, s, None, jnp.asarray(xs[i]))
                outs.append(y)
        for i, y in enumerate(outs):
            want = ref.push(xs[t + i])
            judge(sc, ctx, y, want, t + i, where, ref)
            n = sc["size"]
            ctx.state(where, n, sc["min_periods"], sc["factor"], min(len(ref.hist), n), len(ref.hist) % n, bool(ref.hist[-1].dtype.kind == "f" and np.isnan(np.stack(ref.hist[-n:])).any()), resumed)
        t = stop
        if stop == T:
            break
        if stop in sc["crash"]:
            ctx.fault("crash")
            ctx.probe("crash")
            p, s = pickled(p), pickled(s)
            if sc["kind"] == "attn":  # runs eagerly: needs arrays of jax
                s = jax.tree_util.tree_map(lambda a: jnp.asarray(a) if isinstance(a, np.ndarray) else a, s)
            tf = make()
            step = jax.jit(tf.apply) if not comp else tf.apply
            resumed = True
        if stop == sc["uptime"] and sc["lib"] == "flax":
            s, hit = far_ahead(s, None)
            if hit:
                ctx.fault("long-uptime")
                ctx.probe("uptime")
    if any(np.isnan(x).any() for x in xs if x.dtype.kind == "f"):
        ctx.probe("nan-in-window")


def scan(sc, tf, p, s, x):
    if sc["lib"] == "hk":
        from wax.unroll import unroll_transform_with_state

        return unroll_transform_with_state(tf).apply(p, s, None, x)
    from wax.flax.core.unroll import flax_unroll_transform

    return flax_unroll_transform(tf).apply(p, s, None, x)


def judge(sc, ctx, y, want, t, where, ref):
    what = f"{where} size {sc['size']} delivery {t}"
    tol = dict(rtol=1e-4, atol=1e-4) if sc["dtype"] == "f4" or sc["kind"].startswith("c_") or sc["kind"] in ("hier", "attn") else dict(rtol=1e-9, atol=1e-9)
    if sc["kind"] in ("buffer_state", "lag_state"):
        out, st = y
        y = (out, st.buffer, st.len_buffer)
        ctx.equal(int(y[2]), int(want[2]), "length", what + " number of observations held", where)
        y, want = y[:2], want[:2]
    if sc["kind"] == "c_sketching":
        # a sketch never counts less than what arrived in a bucket row, and nothing else
        y = np.asarray(y)
        ctx.check(y.shape == (16,) and (y >= 0).all() and y.sum() <= len(ref.hist), "sketch", f"{what}: {y}", where)
        return
    ctx.logv(f"{t}", y)
    ctx.equal(y, want, "window", what, where, **tol)
