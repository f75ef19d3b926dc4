"""C08 - missing observations never corrupt running statistics."""

import numpy as np

RUNS = {"quick": 330, "thorough": 15000}
SEARCH = "estimator settings, patterns of lost observations per component, crash points and execution modes"
RULE = (
    "One run feeds a simulated series whose observations are lost (single, in bursts, at the start, for one component or "
    "all) to one running statistic of the Haiku or Flax library, with crashes and resumes, and compares every output with "
    "the documented estimator computed from the full list of observations that did arrive. Non-trivial: something is missing."
)
STATE_MEASURE = "distinct (statistic, settings, missing now, missing before, number of observations so far, resumed)"
REAL = ["wax.modules", "wax.flax.modules", "jax", "haiku", "flax"]
STUB = ["the source of observations (which of them are lost)", "process crash (state read back from bytes)"]
ASSUMPTIONS = [
    "exponential means follow the formulas in their documentation (those of pandas); the linear scheme with decay through gaps is documented in words only and is checked by its invariants",
    "Flax initialisation delivers its example observation (the tests require it)",
    "change detectors are judged on complete data: whether an unknown value is a change is not documented",
]
PROBES = ["lib-hk", "lib-flax", "crash", "burst", "one-component", "missing-first", "mode-scan", "mode-step", "made-full", "made-defaults", "made-factory"]
SHRINK_LISTS = ["missing", "crash", "reset"]
SHRINK_INTS = [("T", 2), ("dim", 1)]

KINDS = ["ewma", "ewma", "ewma", "ewmvar", "ewmcov", "ffill", "ohlc", "has_changed", "counter", "gated_counter"]


def gen(rng, idx, tier):
    kind = rng.choice(KINDS)
    T = rng.randrange(3, 22)
    dim = rng.choice([1, 2, 3])
    missing = []
    style = rng.choice(["rare", "often", "burst", "start", "lane"])
    lane = rng.randrange(dim)
    a = rng.randrange(T)
    b = a + rng.randrange(2, 8)
    for t in range(T):
        for k in range(dim):
            if (
                (style == "rare" and rng.random() < 0.15)
                or (style == "often" and rng.random() < 0.5)
                or (style == "burst" and a <= t < b)
                or (style == "start" and t <= b - a and rng.random() < 0.8)
                or (style == "lane" and k == lane and (rng.random() < 0.7))
            ):
                missing.append([t, k])
    return {
        "lib": rng.choice(["hk", "flax"]), "kind": kind, "T": T, "dim": dim, "missing": missing, "style": style,
        "decay": rng.choice([["com", 3.0], ["com", 0.5], ["alpha", 0.3], ["alpha", 0.05], ["com", 10.0]]),
        "adjust": rng.choice([True, False, True, False, "linear"]), "ignore_na": rng.random() < 0.5,
        "min_periods": rng.choice([0, 0, 1, 2, 4]), "initial": rng.choice([None, None, 0.5, 0.0]), "info": rng.random() < 0.3, "centered": rng.random() < 0.4,
        "dtype": rng.choice(["f8", "f8", "f8", "f4"]), "reset": [t for t in range(T) if rng.random() < 0.2], "vseed": rng.randrange(10**9),
        "crash": sorted(set(rng.randrange(1, T) for _ in range(rng.randrange(0, 3)))), "mode": rng.choice(["step", "step", "scan", "mixed"]),
        "made": rng.choice(["full", "full", "defaults", "factory"]),
    }


# ------------------------------------------------------------------ reference


def alpha_of(sc):
    k, v = sc["decay"]
    return v if k == "alpha" else 1.0 / (1.0 + v)


def weights(obs, t, sc, alpha, adjust):
    """Weights at time t of the observations at times `obs` (sorted, all <= t) as documented."""
    n = len(obs)
    if sc["ignore_na"]:
        age = [n - 1 - i for i in range(n)]
    else:
        age = [obs[-1] - o for o in obs]
    if adjust:
        return [(1 - alpha) ** a for a in age]
    # adjust=False: recursive; each new observation has weight alpha against the
    # whole past, whose weight has decayed to (1-alpha)^gap
    w = [1.0]
    for i in range(1, n):
        gap = 1 if sc["ignore_na"] else obs[i] - obs[i - 1]
        old = (1 - alpha) ** gap
        tot = old + alpha
        w = [v * old / tot for v in w] + [alpha / tot]
    return w


def ewma_ref(x, sc, alpha, adjust, initial, min_periods):
    """(mean, number of observations, weight of the past over weight of a new one) per step of one component."""
    out = []
    obs, vals = [], []
    if initial is not None:
        obs, vals = [-1], [initial]
    for t, v in enumerate(x):
        new = not np.isnan(v)
        if adjust == "linear":
            out.append(None)
            if new:
                obs.append(t)
                vals.append(v)
            continue
        com_eff = None
        if obs and new:
            gap = 1 if sc["ignore_na"] else t - obs[-1]
            if adjust:
                com_eff = (1 - alpha) ** gap * sum(weights(obs, t, sc, alpha, True))
            else:
                com_eff = (1 - alpha) ** gap / alpha
        elif new:
            com_eff = 0.0
        if new:
            obs.append(t)
            vals.append(v)
        n = len(obs) - (initial is not None)
        if not obs:
            out.append((np.nan, 0, None))
            continue
        w = np.array(weights(obs, t, sc, alpha, adjust))
        m = float((w * np.array(vals)).sum() / w.sum())
        out.append((m if n >= min_periods else np.nan, n, com_eff))
    return out


def linear_ref(x, com, initial, min_periods):
    """Linear scheme over observations only (no decay through gaps)."""
    out, m, k, n = [], initial, 0 if initial is None else 1, 0
    for v in x:
        com_eff = None
        if not np.isnan(v):
            u = min(k, com)
            com_eff = u
            m = v if m is None else (u * m + v) / (u + 1)
            k = u + 1
            n += 1
        out.append((np.nan if m is None or n < min_periods else m, n, com_eff))
    return out


def ewmvar_ref(x, alpha, adjust):
    out, vals = [], []
    for v in x:
        if not np.isnan(v):
            vals.append(v)
        n = len(vals)
        if not n:
            out.append(None)
            continue
        if adjust == "linear":
            w = []
            for k in range(1, n + 1):
                a = max(alpha, 1.0 / k)
                w = [q * (1 - a) for q in w] + [a]
        elif adjust:
            w = [(1 - alpha) ** (n - 1 - i) for i in range(n)]
        else:
            w = [(1 - alpha) ** (n - 1)] + [alpha * (1 - alpha) ** (n - 1 - i) for i in range(1, n)]
        w = np.array(w) / sum(w)
        m = (w * np.array(vals)).sum()
        out.append(float((w * (np.array(vals) - m) ** 2).sum()))
    return out


# ------------------------------------------------------------------ modules


DEFAULTS = {"adjust": True, "ignore_na": False, "min_periods": 0, "assume_centered": False, "return_info": False}


def build(sc):
    """The module; arguments at their documented default are left out of a part of the runs."""
    kw = {sc["decay"][0]: sc["decay"][1]}
    full = dict(kw, adjust=sc["adjust"], ignore_na=sc["ignore_na"], min_periods=sc["min_periods"])
    if sc["initial"] is not None:
        full["initial_value"] = sc["initial"]
    k = sc["kind"]
    args = {"ewma": dict(full, return_info=sc["info"]), "ewmvar": dict(kw, adjust=sc["adjust"]), "ewmcov": dict(full, assume_centered=sc["centered"])}.get(k, {})
    if sc["made"] != "full":
        args = {a: v for a, v in args.items() if a not in DEFAULTS or v is not DEFAULTS[a] and v != DEFAULTS[a]}
    if sc["lib"] == "hk":
        import wax.modules as M
        from wax.modules.ewmcov import EWMCov

        def gated(x, e):
            return M.UpdateOnEvent(M.Counter(), initial_output_value=0)(e)

        return {
            "ewma": lambda: lambda x: M.EWMA(**args)(x),
            "ewmvar": lambda: lambda x: M.EWMVar(**args)(x),
            "ewmcov": lambda: lambda x, y: EWMCov(**args)(x, y),
            "ffill": lambda: lambda x: M.Ffill()(x),
            "ohlc": lambda: lambda x, r: M.OHLC()(x, reset_on=r),
            "has_changed": lambda: lambda n: M.HasChanged()(n),
            "counter": lambda: lambda x: M.Counter()(),
            "gated_counter": lambda: gated,
        }[k]
    import flax.linen as nn

    import wax.flax.modules as M
    from wax.flax.modules.ewmcov import EWMCov
    from wax.flax.modules.ewmvar import EWMVar
    from wax.flax.modules.has_changed import HasChanged
    from wax.flax.modules.ohlc import OHLC

    class Count(nn.Module):
        @nn.compact
        def __call__(self, x):
            return M.Counter()()

    if sc["made"] == "factory" and k in ("ewma", "ewmvar", "ewmcov", "ffill", "ohlc", "has_changed"):
        import importlib

        return lambda: getattr(importlib.import_module("wax.flax.modules." + k), "create_" + k)(**args)
    return {
        "ewma": lambda: M.EWMA(**args),
        "ewmvar": lambda: EWMVar(**args),
        "ewmcov": lambda: EWMCov(**args),
        "ffill": lambda: M.Ffill(),
        "ohlc": lambda: OHLC(),
        "has_changed": lambda: HasChanged(),
        "counter": lambda: Count(),
    }[k]


def run(sc, ctx):
    import jax

    from sim.core import rng_for
    from sim.session import drive

    jax.config.update("jax_enable_x64", True)
    T, dim, k = sc["T"], sc["dim"], sc["kind"]
    if k == "gated_counter" and sc["lib"] == "flax":
        k = sc["kind"] = "counter"
    g = np.random.default_rng(rng_for(sc["vseed"], "obs").randrange(2**32))
    x = np.round(g.normal(size=(T, dim)) * 2 + 3, 2).astype(sc["dtype"])
    y = np.round(g.normal(size=(T, dim)) - 1, 2).astype(sc["dtype"])
    for t, j in sc["missing"]:
        if t < T and j < dim:
            x[t, j] = np.nan
            if t % 3 == 1:
                y[t, (j + 1) % dim] = np.nan
    crash = [c for c in sc["crash"] if c < T]
    n_miss = int(np.isnan(x).sum())
    ctx.fault("lost-observation", n_miss)
    ctx.nontrivial = n_miss > 0
    ctx.sim_time = float(T)
    ctx.probe("lib-" + sc["lib"])
    ctx.probe("made-" + sc["made"])
    ctx.probe("mode-" + ("step" if sc["mode"] == "step" else "scan"))
    if crash:
        ctx.probe("crash")
    if sc["style"] == "burst":
        ctx.probe("burst")
    if sc["style"] == "lane" and dim > 1:
        ctx.probe("one-component")
    if np.isnan(x[0]).any():
        ctx.probe("missing-first")
    resets = np.array([t in sc["reset"] for t in range(T)])
    n = g.integers(0, 2, size=T)
    steps = {
        "ewmcov": lambda: [(x[t], y[t]) for t in range(T)],
        "ohlc": lambda: [(x[t], resets[t]) for t in range(T)],
        "has_changed": lambda: [(n[t],) for t in range(T)],
        "gated_counter": lambda: [(x[t], ~np.isnan(x[t]).all()) for t in range(T)],
    }.get(k, lambda: [(x[t],) for t in range(T)])()
    first, outs, _, state = drive(ctx, sc["lib"], build(sc), steps, crash, sc["mode"])
    where = f"{sc['lib']}-{k}"
    # a gap may end in a changed state, never in a lost one
    for i, o in enumerate(outs):
        ctx.logv(first + i, o)
    tol = dict(rtol=2e-4, atol=2e-4) if sc["dtype"] == "f4" else dict(rtol=1e-7, atol=1e-9)
    {"ewma": judge_ewma, "ewmvar": judge_ewmvar, "ewmcov": judge_ewmcov, "ffill": judge_ffill, "ohlc": judge_ohlc, "has_changed": judge_changed, "counter": judge_counter, "gated_counter": judge_counter}[k](
        sc, ctx, x, y if k != "ohlc" else resets, first, outs, where, tol, n
    )
    crashed = set(crash)
    miss = np.isnan(x)
    for t in range(first, T):
        ctx.state(where, sc["decay"][0], str(sc["adjust"]), sc["ignore_na"], sc["min_periods"], sc["initial"], tuple(miss[t]), bool(t and miss[t - 1].all()), min(int((~miss[: t + 1]).sum()), 6), any(c <= t for c in crashed))


def judge_ewma(sc, ctx, x, y, first, outs, where, tol, n):
    alpha, T, dim = alpha_of(sc), sc["T"], sc["dim"]
    com = 1 / alpha - 1
    means = np.full((len(outs), dim), np.nan)
    infos = []
    for i, o in enumerate(outs):
        if sc["info"]:
            o, info = o
            infos.append(info)
        means[i] = o
    for j in range(dim):
        exact = sc["adjust"] != "linear" or sc["ignore_na"] or not np.isnan(x[:, j]).any()
        if sc["adjust"] == "linear":
            ref = linear_ref(x[:, j], com, sc["initial"], sc["min_periods"])
        else:
            ref = ewma_ref(x[:, j], sc, alpha, sc["adjust"], sc["initial"], sc["min_periods"])
        for i in range(len(outs)):
            t = first + i
            m, cnt, com_eff = ref[t]
            what = f"{where} component {j} step {t}"
            if exact:
                ctx.equal(means[i, j], m, "mean", what, where, **tol)
                if sc["info"] and com_eff is not None:
                    ctx.equal(infos[i]["com_eff"][j], com_eff, "effective-com", what, where, **tol)
            else:
                linear_invariants(sc, ctx, x[:, j], means[:, j], i, first, [q["com_eff"][j] for q in infos], com, what, where, ref, tol)
            if sc["info"]:
                ctx.equal(int(infos[i]["nobs"][j]), cnt, "count", what + " number of observations", where)


def linear_invariants(sc, ctx, x, means, i, first, com_eff, com, what, where, ref, tol):
    """Linear scheme decaying through gaps: what the documentation says in words."""
    t = first + i
    known = not np.isnan(ref[t][0])
    ctx.check(known == (not np.isnan(means[i])), "mean", lambda: f"{what}: known {known}, got {means[i]}", where)
    seen = x[: t + 1][~np.isnan(x[: t + 1])]
    eps = 1e-3
    if known and not np.isnan(means[i]):
        lo, hi = min(seen.min(), sc["initial"] if sc["initial"] is not None else np.inf), max(seen.max(), sc["initial"] if sc["initial"] is not None else -np.inf)
        ctx.check(lo - eps <= means[i] <= hi + eps, "mean-range", lambda: f"{what}: mean {means[i]} outside of what was observed", where)
    if i and known and not np.isnan(means[i - 1]):
        if np.isnan(x[t]):
            ctx.equal(means[i], means[i - 1], "held", what, where, **tol)
        else:
            lo, hi = sorted([means[i - 1], x[t]])
            ctx.check(lo - eps <= means[i] <= hi + eps, "mean-between", lambda: f"{what}: {means[i]} not between {means[i - 1]} and {x[t]}", where)
    if com_eff:
        ctx.check(-eps <= com_eff[i] <= com + eps, "effective-com", lambda: f"{what}: {com_eff[i]} outside of [0, {com}]", where)
        if i and np.isnan(x[t]):
            ctx.check(com_eff[i] <= com_eff[i - 1] + 1 + eps if not np.isnan(x[t - 1]) else com_eff[i] <= com_eff[i - 1] + eps, "effective-com", lambda: f"{what}: grows in a gap {com_eff[i - 1]} -> {com_eff[i]}", where)


def judge_ewmvar(sc, ctx, x, y, first, outs, where, tol, n):
    for j in range(sc["dim"]):
        ref = ewmvar_ref(x[:, j].astype(np.float64), alpha_of(sc), sc["adjust"])
        for i, o in enumerate(outs):
            if ref[first + i] is not None:
                ctx.equal(o[j], ref[first + i], "variance", f"{where} component {j} step {first + i}", where, **tol)


def judge_ewmcov(sc, ctx, x, y, first, outs, where, tol, n):
    if sc["adjust"] == "linear" and not sc["ignore_na"] and (np.isnan(x).any() or np.isnan(y).any()):
        return
    alpha, T, dim = alpha_of(sc), sc["T"], sc["dim"]

    def mean(v):
        if sc["adjust"] == "linear":
            return [r[0] for r in linear_ref(v, 1 / alpha - 1, sc["initial"], sc["min_periods"])]
        return [r[0] for r in ewma_ref(v, sc, alpha, sc["adjust"], sc["initial"], sc["min_periods"])]

    mx = [mean(x[:, j]) for j in range(dim)]
    my = [mean(y[:, j]) for j in range(dim)]
    for a in range(dim):
        for b in range(dim):
            mxy = mean(x[:, a] * y[:, b])
            for i, o in enumerate(outs):
                t = first + i
                want = mxy[t] if sc["centered"] else mxy[t] - mx[a][t] * my[b][t]
                ctx.equal(o[a, b], want, "covariance", f"{where} components {a},{b} step {t}", where, **({"rtol": 2e-3, "atol": 2e-3} if sc["dtype"] == "f4" else tol))


def judge_ffill(sc, ctx, x, y, first, outs, where, tol, n):
    last = np.full(sc["dim"], np.nan)
    for t in range(sc["T"]):
        last = np.where(np.isnan(x[t]), last, x[t])
        if t >= first:
            ctx.equal(outs[t - first], last, "fill", f"{where} step {t}", where)


def judge_ohlc(sc, ctx, x, resets, first, outs, where, tol, n):
    for j in range(sc["dim"]):
        bin_ = []
        for t in range(sc["T"]):
            if resets[t]:
                bin_ = []
            if not np.isnan(x[t, j]):
                bin_.append(float(x[t, j]))
            if t >= first:
                o = outs[t - first]
                want = (bin_[0], max(bin_), min(bin_), bin_[-1]) if bin_ else (np.nan,) * 4
                ctx.equal([float(getattr(o, f)[j]) for f in ("OPEN", "HIGH", "LOW", "CLOSE")], list(want), "bar", f"{where} component {j} step {t}", where, **tol)


def judge_changed(sc, ctx, x, y, first, outs, where, tol, n):
    for i, o in enumerate(outs):
        t = first + i
        if t:
            ctx.equal(bool(o), bool(n[t] != n[t - 1]), "changed", f"{where} step {t}", where)


def judge_counter(sc, ctx, x, y, first, outs, where, tol, n):
    c = 0
    for t in range(sc["T"]):
        c += sc["kind"] == "counter" or not np.isnan(x[t]).all()
        if t >= first:
            ctx.equal(int(outs[t - first]), c, "count", f"{where} step {t}", where)
