"""C04 - labelled streaming: labels, values and state survive chunking and restarts."""

import pickle
import warnings

import numpy as np

RUNS = {"quick": 600, "thorough": 20000}
SEARCH = "containers and index forms, dtypes, outages, module outputs, cut points, restarts, failed attempts and foreign sessions between the parts"
RULE = (
    "One run builds a labelled container (series, frame, hierarchical frame or series, array, data set) from simulated observations "
    "with outages, and applies a module to it, whole and in parts between which the session is passed on, saved and restored, "
    "started afresh, attempted with a failing module, or shared with a foreign application. Every output is compared, value by value under its "
    "labels, with a plain loop of the module over the raw rows, so are states; the input stays as it was. Non-trivial: at least two steps."
)
STATE_MEASURE = "distinct (container, module, output form, options, kinds of passing on)"
REAL = ["wax.accessors", "wax.format", "wax.stream", "wax.unroll", "EWMA, Lag, Diff", "JAX, Haiku, pandas, xarray"]
STUB = ["the source of the parts, crash and restart"]
ASSUMPTIONS = [
    "hierarchical containers hold every combination of their levels; the order of their levels in outputs is not judged",
    "all outputs of one application have the container's dimensions or its time only, unless their dimensions are given",
    "parts of data sets with several times or with strings are not judged (C01)",
]
PROBES = ["series", "frame", "rows", "columns", "levels", "array", "dataset", "dups", "shuffled", "missing-step", "missing-part", "reduced", "map", "pair", "skip", "skip-all", "restart", "fresh", "failed-attempt", "foreign", "ewm", "raw", "rng", "given-params", "x64", "aux-date", "no-coord", "constant", "unit-us", "mutated", "odd-dtype", "again", "relabelled", "new-values"]
SHRINK_LISTS = ["parts", "outages", "vars"]
SHRINK_INTS = [("T", 1), ("A", 1), ("B", 1)]

KINDS = ["series", "frame", "frame", "rows", "columns", "levels", "array", "array", "dataset"]
DTYPES = ["float32", "float64", "float64", "float64", "float64", "float64", "float64", "float64", "float64", "int64", "int32", "bool", "int16", "uint8", "float16", "uint32"]


class Boom(Exception):
    pass


def gen(rng, idx, tier):
    kind = rng.choice(KINDS)
    T = rng.choice([1, 2, 4, 4, 6])
    parts, left = [], T
    while left:
        n = min(left, rng.choice([1, 2, 2, 4]))
        left -= n
        parts.append({"n": n, "carry": rng.choice(["pass", "pass", "restart", "restart", "fresh"]), "fail": rng.choice([None] * 5 + ["Boom", "ValueError"]), "foreign": rng.random() < 0.15})
    outages = [[rng.randrange(T), rng.choice([-1, -1, 0, 1, 2])] for _ in range(rng.randrange(0, 4))]
    if rng.random() < 0.2:  # a whole part, or the beginning
        outages += [[t, rng.choice([-1, 0])] for t in range(rng.randrange(1, T + 1))]
    return {
        "kind": kind, "T": T, "A": rng.choice([3, 3, 1]), "B": rng.choice([2, 2, 2, 1]), "ndim": rng.randrange(1, 4), "seed": rng.randrange(10**6), "parts": parts, "outages": outages,
        "dtype": rng.choice(DTYPES), "unit": rng.choice(["ns", "ns", "ns", "us", "s"]), "order": rng.choice(["sorted"] * 4 + ["shuffled", "dups"]), "named": rng.random() < 0.6, "freq": rng.choice(["D", "h", "ms"]),
        "module": rng.choice(["id", "cum", "cum", "cum", "ewma", "ewma", "lag", "diff", "noise", "weighted"]), "out": rng.choice(["same", "same", "same", "reduced", "map", "pair"]),
        "skip": rng.random() < 0.12, "ewm": rng.random() < 0.2, "ewmopts": {"com": rng.choice([0.5, 3.0]), "adjust": rng.random() < 0.5, "ignore_na": rng.random() < 0.5, "min_periods": rng.choice([0, 0, 2])},
        "format": rng.random() < 0.85, "x64": rng.random() < 0.12, "jit": rng.random() < 0.2, "weight": rng.choice([None, 2.0, 0.5]), "aux": rng.sample(["date", "dates", "number", "perstep"], rng.randrange(0, 3)), "nocoord": rng.random() < 0.2,
        "vars": [{"dims": rng.choice([["t"], ["t", "x"], ["t", "x"], ["t", "x", "y"], ["x"], ["y", "x"], []]), "out": rng.random() < 0.7} for _ in range(rng.randrange(1, 4))],
        "mutate": rng.random() < 0.3, "again": rng.random() < 0.2, "relabel": rng.choice([None, None, None, None, "labels", "values"]), "perm": [rng.random() for _ in range(6)],
    }  # fmt: skip


def run(sc, ctx):
    import jax
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    if sc["x64"]:
        ctx.probe("x64")
    jax.config.update("jax_enable_x64", bool(sc["x64"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if sc["jit"] or sc["skip"]:
            go(sc, ctx)
        else:
            with jax.disable_jit():
                go(sc, ctx)


# ------------------------------------------------------------------ modules


def step_fn(sc, boom=None):
    """x (array of one step) -> output; also used by the reference."""
    import haiku as hk
    import jax
    import jax.numpy as jnp
    from wax.modules import EWMA, Diff, Lag

    name = sc["module"]

    def f(x, name_=None):
        k = {} if name_ is None else {"name": name_}
        if name == "id":
            y = x
        elif name in ("cum", "weighted"):
            w = hk.get_parameter(f"w{name_ or ''}", [], init=hk.initializers.Constant(1.0)) if name == "weighted" else 1.0
            s = hk.get_state(f"s{name_ or ''}", jnp.shape(x), jnp.float32, init=jnp.zeros)
            n = hk.get_state(f"n{name_ or ''}", [], jnp.float32, init=jnp.zeros)
            s, n = s + jnp.nan_to_num(x.astype(jnp.float32)) * w, n + 1
            hk.set_state(f"s{name_ or ''}", s)
            hk.set_state(f"n{name_ or ''}", n)
            y = s + n
        elif name == "ewma":
            y = EWMA(**sc["ewmopts"], **k)(x.astype(jnp.result_type(x, float) if sc["ewm"] else jnp.float32))
        elif name == "lag":
            y = Lag(1, **k)(x.astype(jnp.float32))
        elif name == "diff":
            y = Diff(**k)(x.astype(jnp.float32))
        elif name == "noise":
            y = x.astype(jnp.float32) + jax.random.uniform(hk.next_rng_key())
        if boom:
            raise boom("module")
        return y

    return f


def form(sc, y):
    import jax.numpy as jnp

    if sc["out"] == "reduced":
        return jnp.sum(y)
    if sc["out"] == "map":
        return {"b": y, "a": jnp.isnan(y) if y.dtype.kind == "f" else y == 0}
    if sc["out"] == "pair":
        return jnp.sum(y), jnp.sum(y) * 2
    return y


def array_module(sc, boom=None):
    f = step_fn(sc, boom)
    return lambda x: form(sc, f(x))


def dataset_module(sc, boom=None):
    f = step_fn(sc, boom)

    def module(d):
        const = 0.0
        out = {}
        for i, v in enumerate(sc["vars"]):
            x = d[f"v{i}"]
            if "t" not in v["dims"]:
                const = const + x.sum().astype("float32")
        for i, v in enumerate(sc["vars"]):
            if "t" in v["dims"] and v["out"]:
                out[f"v{i}"] = f(d[f"v{i}"], f"m{i}") + const
        return out

    return module


# --------------------------------------------------------------- containers


def times(sc):
    import pandas as pd

    t = pd.date_range("1999-12-31", periods=sc["T"], freq=sc["freq"] if sc["unit"] != "s" or sc["freq"] != "ms" else "h").to_numpy()
    if sc["kind"] in ("series", "frame", "array", "dataset"):
        if sc["order"] == "shuffled":
            t = t[np.random.RandomState(sc["seed"]).permutation(len(t))]
        elif sc["order"] == "dups" and sc["kind"] in ("series", "frame"):
            t = t[np.sort(np.random.RandomState(sc["seed"]).randint(0, len(t), len(t)))]
    return t.astype(f"datetime64[{sc['unit']}]")


def values(sc, shape, salt=0):
    dt = np.dtype(sc["dtype"])
    g = np.random.RandomState(sc["seed"] + salt)
    x = np.round(g.randn(sc["T"], *shape) * 3 + 4, 2)
    if dt.kind == "f":
        for t, lane in sc["outages"]:
            if t < sc["T"]:
                if lane < 0 or not shape:
                    x[t] = np.nan
                else:
                    x[t].reshape(-1)[lane % max(1, int(np.prod(shape)))] = np.nan
        return x.astype(dt)
    if dt.kind == "b":
        return x > 4
    return np.abs(np.round(x)).astype(dt)


class Box:
    """A container, its parts, and what the outputs' labels must be."""

    def __init__(self, sc, ctx, salt=0):
        import pandas as pd
        import xarray as xr

        self.sc, self.k = sc, sc["kind"]
        self.t = times(sc)
        A, B = sc["A"], sc["B"]
        k = self.k
        rs = np.random.RandomState(sc["seed"] + 1)
        nm = (lambda *n: list(n)) if sc["named"] else (lambda *n: [None] * len(n))
        self.a = list(np.array(["q", "b", "m"])[rs.permutation(3)[:A]])
        self.b = [int(v) for v in np.array([7, 3, 5])[rs.permutation(3)[:B]]]
        if k == "series":
            self.x = values(sc, (), salt)
            self.obj = pd.Series(self.x.copy(), index=pd.Index(self.t, name=nm("time")[0]))
        elif k == "frame":
            self.x = values(sc, (A,), salt)
            self.obj = pd.DataFrame(self.x.copy(), index=pd.Index(self.t, name=nm("time")[0]), columns=pd.Index(self.a, name=nm("sym")[0]))
        elif k == "levels":  # a series with two or three levels
            self.x = values(sc, (A, B), salt)
            self.obj = pd.Series(self.x.reshape(-1).copy(), index=pd.MultiIndex.from_product([self.t, self.a, self.b], names=["time", "u", "v"]))
        elif k == "rows":
            self.x = values(sc, (A, B), salt)
            self.obj = pd.DataFrame(self.x.reshape(-1, B).copy(), index=pd.MultiIndex.from_product([self.t, self.a], names=["time", "u"]), columns=pd.Index(self.b, name="v"))
        elif k == "columns":
            self.x = values(sc, (A, B), salt)
            self.obj = pd.DataFrame(self.x.reshape(len(self.t), -1).copy(), index=pd.Index(self.t, name="time"), columns=pd.MultiIndex.from_product([self.a, self.b], names=["u", "v"]))
        elif k == "array":
            shape = (A, B)[: sc["ndim"] - 1]
            self.dims = ("t", "x", "y")[: sc["ndim"]]
            self.x = values(sc, shape, salt)
            self.coords = {"t": self.t}
            if len(shape) > 0 and not sc["nocoord"]:
                self.coords["x"] = self.a
            if len(shape) > 1:
                self.coords["y"] = self.b
            self.obj = xr.DataArray(self.x.copy(), dims=self.dims, coords=dict(self.coords, **self.aux(shape)))
        else:
            sizes = {"t": len(self.t), "x": A, "y": B}
            self.coords = {"t": self.t, "x": self.a, "y": self.b}
            self.raw, data = {}, {}
            for i, v in enumerate(sc["vars"]):
                if "t" in v["dims"]:
                    w = values(sc, [sizes[d] for d in v["dims"][1:]], salt + 7 * i)
                else:
                    w = np.round(np.random.RandomState(sc["seed"] + salt + i).randn(*[sizes[d] for d in v["dims"]]), 2).astype("float32")
                self.raw[f"v{i}"] = np.asarray(w)
                data[f"v{i}"] = (tuple(v["dims"]), np.array(w))
            dims = {d for v in sc["vars"] for d in v["dims"]} | {"t"}
            self.coords = {d: c for d, c in self.coords.items() if d in dims}
            self.obj = xr.Dataset(data, coords=dict(self.coords, **self.aux((A, B) if "x" in dims else ())))
        if k in ("levels", "rows", "columns") and not all(p > 0.5 for p in sc["perm"][:1]):
            self.shuffle()

    def aux(self, shape):
        out = {}
        for a in self.sc["aux"]:
            if a == "date":
                out["asof"] = np.datetime64("2001-02-03", "ns")
            elif a == "number":
                out["version"] = 3
            elif a == "dates" and len(shape):
                out["expiry"] = ("x", np.array(["2010-01-01"] * shape[0], "datetime64[ns]"))
            elif a == "perstep":
                out["received"] = ("t", self.t + np.timedelta64(1, "h"))
        return out

    def shuffle(self):
        """Other order of the labels within a step, the same data."""
        rs = np.random.RandomState(self.sc["seed"] + 2)
        if self.k == "columns":
            self.obj = self.obj.iloc[:, rs.permutation(self.obj.shape[1])]
        else:
            n = len(self.obj) // len(self.t)
            p = rs.permutation(n)
            self.obj = self.obj.iloc[np.concatenate([p + n * i for i in range(len(self.t))])]

    def part(self, i, j):
        if self.k in ("array", "dataset"):
            return self.obj.isel(t=slice(i, j)).copy(deep=True)
        n = len(self.obj) // len(self.t)
        return self.obj.iloc[i * n : j * n].copy(deep=True)

    def rows(self, i, j):
        if self.k != "dataset":
            return [self.x[t] for t in range(i, j)]
        return [{n: (w[t] if "t" in self.sc["vars"][int(n[1:])]["dims"] else w) for n, w in self.raw.items()} for t in range(i, j)]


def fingerprint(obj):
    import pandas as pd

    if isinstance(obj, (pd.Series, pd.DataFrame)):
        return pickle.dumps((obj.to_numpy().copy(), list(obj.index), list(obj.index.names), list(getattr(obj, "columns", []))))
    ds = obj.to_dataset(name="it") if hasattr(obj, "to_dataset") else obj
    return pickle.dumps(sorted((str(n), v.dims, v.values.copy()) for n, v in ds.variables.items()))


# ---------------------------------------------------------------- reference


class Reference:
    """The module in a plain loop over raw rows."""

    def __init__(self, sc, module, rng):
        import haiku as hk

        self.tf = hk.transform_with_state(module)
        self.p = self.s = None
        self.rng = rng

    def cast(self, x):
        import jax
        import jax.numpy as jnp

        return jax.tree_util.tree_map(jnp.asarray, x)

    def start(self, row, params, state):
        p, s = self.tf.init(self.rng, self.cast(row))
        self.p = p if params is None else params
        self.s = s if state is None else state

    def run(self, rows):
        import jax

        out, rng = [], self.rng
        for r in rows:
            sub = None
            if rng is not None:
                rng, sub = jax.random.split(rng)
            y, self.s = self.tf.apply(self.p, self.s, sub, self.cast(r))
            out.append(jax.device_get(y))
        return out


# ----------------------------------------------------------------- verdicts


def leaf_check(ctx, box, got, rows, t, what):
    """got: one formatted output; rows: its values step by step; t: its times."""
    import pandas as pd
    import xarray as xr

    k = box.k
    rows = [np.asarray(r) for r in rows]
    full = box.x.shape[1:] if k != "dataset" else None
    reduced = k != "dataset" and (rows[0].shape != full if rows else box.sc["out"] in ("reduced", "pair"))
    where = f"{k}"

    def same(a, b, kind, name):
        return ctx.equal(np.asarray(a), np.asarray(b), kind, f"{what}: {name}", where)

    if k in ("array", "dataset"):
        if not ctx.check(isinstance(got, xr.DataArray), "other-type", lambda: f"{what}: {type(got).__name__}", where):
            return
        dims = (box.dims if k == "array" else got.dims) if not reduced else ("t",)
        if not ctx.check(tuple(got.dims) == tuple(dims), "other-labels", lambda: f"{what}: dimensions {got.dims}, expected {dims}", where):
            return
        for d in dims:
            if d in box.coords:
                if ctx.check(d in got.coords, "other-labels", lambda: f"{what}: no coordinate {d}", where):
                    same(got.coords[d].values, t if d == "t" else np.array(box.coords[d]), "other-labels", f"coordinate {d}")
        if rows:
            same(got.values, np.stack(rows), "other-values", "values")
        return
    want = pd.Series if reduced or k in ("series", "levels") else pd.DataFrame
    if not rows and k != "series":
        want = (pd.Series, pd.DataFrame)
    if not ctx.check(isinstance(got, want), "other-type", lambda: f"{what}: {type(got).__name__}", where):
        return
    if reduced or k == "series":
        same(got.index.values, t, "other-labels", "index")
        if rows:
            same(got.values, np.stack(rows), "other-values", "values")
        return
    if not rows:
        return
    y = np.stack(rows)
    if k == "frame":
        same(got.index.values, t, "other-labels", "index")
        ctx.check(list(got.columns) == list(box.a), "other-labels", lambda: f"{what}: columns {list(got.columns)}, expected {box.a}", where)
        same(got.values, y, "other-values", "values")
        if box.sc["named"]:
            ctx.check((got.index.name, got.columns.name) == ("time", "sym"), "other-labels", lambda: f"{what}: names {got.index.name, got.columns.name}", where)
        return
    names = list(got.index.names) + (list(got.columns.names) if k != "levels" else [])
    ctx.check(names == ["time", "u", "v"] and got.index.nlevels == {"levels": 3, "rows": 2, "columns": 1}[k], "other-labels", lambda: f"{what}: levels {names}", where)
    found = {}
    cells = [(r, (), got.iloc[i]) for i, r in enumerate(got.index)] if k == "levels" else [(r, c, got.iloc[i, j]) for i, r in enumerate(got.index) for j, c in enumerate(got.columns)]
    for r, c, v in cells:
        key = (r if isinstance(r, tuple) else (r,)) + (c if isinstance(c, tuple) else (c,))
        found[(np.datetime64(key[0], "ns"), str(key[1]), int(key[2]))] = v
    ctx.check(len(found) == len(cells), "other-labels", lambda: f"{what}: labels occur twice", where)
    exp = {(np.datetime64(t[i], "ns"), str(a), b): y[i, ja, jb] for i in range(len(rows)) for ja, a in enumerate(box.a) for jb, b in enumerate(box.b)}
    if ctx.check(set(found) == set(exp), "other-labels", lambda: f"{what}: labels missing {sorted(set(exp) - set(found))[:4]}, added {sorted(set(found) - set(exp))[:4]}", where):
        ks = sorted(exp)
        same([found[q] for q in ks], [exp[q] for q in ks], "other-values", "values")


def output_check(ctx, box, got, rows, t, what):
    """rows: list of output trees, one per step."""
    import xarray as xr

    sc = box.sc
    if not sc["format"]:
        if rows and box.k not in ("levels", "rows", "columns"):
            import jax

            want = jax.tree_util.tree_map(lambda *a: np.stack([np.asarray(v) for v in a]), *rows)
            ctx.equal(jax.device_get(got), want, "other-values", what, box.k)
        return
    if box.k == "dataset":
        names = [f"v{i}" for i, v in enumerate(sc["vars"]) if "t" in v["dims"] and v["out"]]
        if not ctx.check(isinstance(got, xr.Dataset) and sorted(got.data_vars) == names, "other-type", lambda: f"{what}: {type(got).__name__} {list(got)}, expected variables {names}", box.k):
            return
        for n in names:
            dims = tuple(sc["vars"][int(n[1:])]["dims"])
            ctx.check(got[n].dims == dims, "other-labels", lambda: f"{what}: {n} has dimensions {got[n].dims}, expected {dims}", box.k)
            leaf_check(ctx, box, got[n], [r[n] for r in rows], t, f"{what}, {n}")
        return
    if sc["out"] == "map" and not sc["ewm"]:
        if ctx.check(isinstance(got, dict) and sorted(got) == ["a", "b"], "other-type", lambda: f"{what}: {type(got).__name__}", box.k):
            for n in got:
                leaf_check(ctx, box, got[n], [r[n] for r in rows], t, f"{what}, {n}")
    elif sc["out"] == "pair" and not sc["ewm"]:
        if ctx.check(isinstance(got, tuple) and len(got) == 2, "other-type", lambda: f"{what}: {type(got).__name__}", box.k):
            for n in (0, 1):
                leaf_check(ctx, box, got[n], [r[n] for r in rows], t, f"{what}, {n}")
    else:
        leaf_check(ctx, box, got, rows, t, what)


# ---------------------------------------------------------------------- run


def go(sc, ctx):
    import jax

    if sc["kind"] == "dataset":
        if not any("t" in v["dims"] and v["out"] for v in sc["vars"]):
            sc["vars"].append({"dims": ["t"], "out": True})
        sc["out"], sc["ewm"] = "same", False
        if sum("t" not in v["dims"] for v in sc["vars"]):
            ctx.probe("constant")
    if sc["ewm"]:
        sc["module"], sc["out"], sc["skip"] = "ewma", "same", False
        sc["dtype"] = "float32" if sc["dtype"] == "float16" else sc["dtype"]
        ctx.probe("ewm")
    if sc["x64"] and sc["dtype"] == "float32":
        sc["dtype"] = "float64"
    box = Box(sc, ctx)
    k = sc["kind"]
    ctx.probe(k)
    for p, on in [("dups", sc["order"] == "dups" and k in ("series", "frame")), ("shuffled", sc["order"] == "shuffled"), ("skip", sc["skip"]), ("raw", not sc["format"]), ("rng", sc["module"] == "noise"), ("unit-us", sc["unit"] == "us"), ("odd-dtype", sc["dtype"] in ("int16", "uint8", "float16")), (sc["out"], sc["out"] != "same"), ("no-coord", sc["nocoord"] and k == "array"), ("aux-date", {"date", "dates", "perstep"} & set(sc["aux"]) and k in ("array", "dataset"))]:
        if on:
            ctx.probe(p)
    if k != "dataset" and np.dtype(sc["dtype"]).kind == "f":
        gone = np.isnan(box.x.reshape(sc["T"], -1).astype(float)).all(1)
        ctx.fault("missing-step", int(gone.sum()))
        if gone.any():
            ctx.probe("missing-step")
    make = dataset_module if k == "dataset" else array_module
    rng = jax.random.PRNGKey(sc["seed"]) if sc["module"] == "noise" else None
    params = None
    if sc["module"] == "weighted" and sc["weight"] is not None and k != "dataset":
        ctx.probe("given-params")
        params = {"~": {"w": jax.numpy.float32(sc["weight"])}}
    kw = {}
    if k == "dataset":
        kw["format_dims"] = {f"v{i}": np.array(v["dims"]) for i, v in enumerate(sc["vars"]) if "t" in v["dims"] and v["out"]}

    def apply(obj, state, params, boom=None, stream=None):
        if sc["ewm"]:
            return obj.wax.ewm(return_state=True, format_outputs=sc["format"], **sc["ewmopts"]).mean()
        st = stream or obj.wax.stream(format_outputs=sc["format"])
        return st.apply(make(sc, boom), skip_first=sc["skip"], params=params, state=state, rng=rng, **kw)

    def one(ref, obj, rows, t, state, params, what, stream=None):
        """One application and its verdict; returns the state. The reference has its own state."""
        before = fingerprint(obj)
        with ctx.guard("failed", k):
            got = apply(obj, state, params, stream=stream)
        if not ctx.check(isinstance(got, tuple) and len(got) == 2, "other-type", lambda: f"{what}: no state in {type(got).__name__}", k):
            return None
        got, s = got[0], jax.device_get(got[1])
        ctx.check(fingerprint(obj) == before, "input-changed", f"{what}: the container was modified", k)
        if sc["mutate"] and sc["format"] and sc["dtype"] != "bool":
            ctx.probe("mutated")
            wipe(obj)
        ref.start(rows[0], params, None if state is None else ref.s)
        if sc["skip"]:
            rows, t = rows[1:], t[1:]
            if not rows:
                ctx.probe("skip-all")
        want = ref.run(rows)
        output_check(ctx, box, got, want, t, what)
        if k not in ("levels", "rows", "columns"):
            ctx.equal(s, jax.device_get(ref.s), "other-state", f"{what}: final state", k)
        ctx.logv(what, s)
        return s

    T = sc["T"]
    ctx.nontrivial = T > 1
    ref = Reference(sc, make(sc), rng)
    whole = one(ref, box.part(0, T), box.rows(0, T), box.t, None, params, "whole")
    if sc["again"] and not sc["ewm"]:
        ctx.probe("again")
        obj = box.part(0, T)
        st = obj.wax.stream(format_outputs=sc["format"])
        sc2 = dict(sc, mutate=False)
        sc["mutate"], m = False, sc["mutate"]
        a = one(ref, obj, box.rows(0, T), box.t, None, params, "first use of a stream", stream=st)
        b = one(ref, obj, box.rows(0, T), box.t, None, params, "second use of a stream", stream=st)
        ctx.equal(b, a, "other-state", "second use of a stream: state", k)
        sc["mutate"] = m
        del sc2
    if sc["relabel"] and not sc["ewm"]:
        m, sc["mutate"] = sc["mutate"], False
        obj, rows, t = box.part(0, T), box.rows(0, T), box.t
        one(ref, obj, rows, t, None, params, "before the container changes")
        if sc["relabel"] == "labels" or k in ("levels", "rows", "columns", "dataset"):
            ctx.probe("relabelled")
            t = relabel(obj, t)
        else:
            ctx.probe("new-values")
            rows = [np.array(r) for r in rows[::-1]]
            if k == "array":
                obj.values[...] = np.stack(rows)
            else:
                obj[:] = np.stack(rows)
        one(ref, obj, rows, t, None, params, "after the container has changed")
        sc["mutate"] = m
    ref.s = None
    if rng is None and not sc["ewm"]:
        state, p, i = None, params, 0
        fresh = False
        steps = 0
        for n, part in enumerate(sc["parts"]):
            j = min(i + part["n"], T)
            if i >= j:
                break
            if n:
                if part["carry"] == "restart":
                    ctx.fault("restart")
                    ctx.probe("restart")
                    state, p = pickle.loads(pickle.dumps((state, jax.device_get(p))))
                elif part["carry"] == "fresh":
                    ctx.probe("fresh")
                    state, fresh = None, True
            if part["fail"]:
                ctx.fault("failed-attempt")
                ctx.probe("failed-attempt")
                obj = box.part(i, j)
                before = fingerprint(obj)
                try:
                    apply(obj, state, p, boom={"Boom": Boom, "ValueError": ValueError}[part["fail"]])
                    ctx.violate("error-lost", "the module's exception does not reach the caller", k)
                except (Boom, ValueError) as e:
                    ctx.check(str(e) == "module", "error-lost", lambda: f"the module's exception became {e!r}", k)
                except Exception as e:
                    ctx.violate("error-lost", f"the module's exception became {type(e).__name__}: {e}", k)
                ctx.check(fingerprint(obj) == before, "input-changed", "a failed application modified the container", k)
            if part["foreign"]:
                ctx.probe("foreign")
                ctx.fault("foreign")
                other = Box(dict(sc, seed=sc["seed"] + 5), ctx)
                with ctx.guard("failed", k):
                    apply(other.part(0, T), None, params)
            state = one(ref, box.part(i, j), box.rows(i, j), box.t[i:j], state, p, f"part {n} ({i}:{j})")
            steps += j - i - bool(sc["skip"])
            i = j
        if k != "dataset" and np.dtype(sc["dtype"]).kind == "f" and len(sc["parts"]) > 1 and not fresh and i == T and any(np.isnan(box.x[a:b].astype(float)).all() for a, b in bounds(sc)):
            ctx.probe("missing-part")
        if not fresh and i == T and not sc["skip"] and len(sc["parts"]) > 1:
            ctx.equal(state, whole, "other-state", "final state of the parts and of the whole", k)
    ctx.state(k, sc["module"], sc["out"], sc["skip"], sc["format"], sc["dtype"], tuple(p["carry"] for p in sc["parts"]))


def bounds(sc):
    i = 0
    for p in sc["parts"]:
        yield i, min(i + p["n"], sc["T"])
        i += p["n"]


def relabel(obj, t):
    """Other times for the same container."""
    import pandas as pd

    day = np.timedelta64(1, "D")
    if not isinstance(obj, (pd.Series, pd.DataFrame)):
        obj["t"] = obj["t"].values + day
    elif isinstance(obj.index, pd.MultiIndex):
        obj.index = obj.index.set_levels(obj.index.levels[0] + pd.Timedelta(day), level=0)
    else:
        obj.index = obj.index + pd.Timedelta(day)
    return t + day


def wipe(obj):
    import pandas as pd

    if isinstance(obj, (pd.Series, pd.DataFrame)):
        v = obj.to_numpy()
        if v.flags.writeable:
            v[...] = 77
    elif hasattr(obj, "data_vars"):
        for v in obj.data_vars.values():
            v.values[...] = 77
    else:
        obj.values[...] = 77
