"""C01 - merging out-of-sync streams is causal, complete and exact."""

import numpy as np

RUNS = {"quick": 900, "thorough": 20000}
RULE = (
    "One run simulates a local clock and 1-3 remote sources whose events are lost, duplicated, delayed, bunched "
    "by a stall or shifted by clock skew on the way to the merge; the real code synchronises them (live merge of "
    "generators, traced index + scan, or the dataset accessor) and every local step is compared with a direct "
    "model. Non-trivial: at least one source event was delivered after the first local tick and one fault or "
    "missing/buffered observation occurred."
)
STATE_MEASURE = "distinct (mode, delivery kind, buffer length, ffill, freq, new-observation-count bucket, previous bucket) per step and stream"
REAL = ["wax.stream", "wax.encode", "wax.accessors", "wax.unroll", "wax.utils", "jax", "haiku", "xarray", "pandas"]
STUB = ["remote sources, their clocks and the network between them (discrete-event simulation)"]
ASSUMPTIONS = [
    "each source hands its observations over in non-decreasing time order",
    "an observation belongs to local time T when its own time is strictly before T (or before T floored to the day when a daily frequency is set)",
]
PROBES = ["buffered", "buffer-overflow", "ffill-used", "init-fill", "tie", "daily-floor", "exhausted", "burst", "source-died", "two-sessions", "constant-array", "multi-dim-buffered", "pre-1970", "string", "accessor", "collected"]
SHRINK_LISTS = ["streams", "streams.*.events", "streams.*.vars", "local.events", "consts", "interleave"]
SHRINK_INTS = [("streams.*.maxlen", 0), ("streams.*.vars.*.k", 1)]

MS = 1_000_000
DAY = 86_400_000


def source(rng, n, period, t0, kinds):
    """Events of one source as they reach the merge: [arrival ms, id, tag]."""
    out, t = [], t0
    skew = rng.randrange(-5000, 5000) if "skew" in kinds else 0
    stall_from = t0 + rng.randrange(1, n * period + 1) if "stall" in kinds else None
    stall_to = stall_from + rng.randrange(period, 6 * period) if stall_from else None
    for i in range(n):
        t += rng.choice([period, period, period, rng.randrange(0, 2 * period + 1), 0])
        a, tag = t + skew, "skew" if skew else ""
        if "loss" in kinds and rng.random() < 0.2:
            continue
        if "delay" in kinds and rng.random() < 0.4:
            a += rng.randrange(0, 3 * period + 1)
            tag = "delay"
        if stall_from and stall_from <= a < stall_to:
            a, tag = stall_to, "stall"
        out.append([a, i, tag])
        if "dup" in kinds and rng.random() < 0.2:
            out.append([a + rng.choice([0, rng.randrange(0, 2 * period)]), i, "dup"])
    out.sort(key=lambda e: (e[0], e[1]))
    return out or [[t0, 0, ""]]


def gen(rng, idx, tier):
    mode = rng.choice(["merge", "merge", "merge", "prepare", "accessor"])
    daily = rng.random() < 0.5
    period = rng.choice([3_600_000 * 5, 3_600_000 * 12, DAY // 3]) if daily else rng.choice([1000, 60_000, 3_600_000])
    t0 = rng.choice([946_684_800_000, 946_684_800_000, 1_600_000_000_000, -3 * DAY, 0])
    n_local = rng.randrange(1, 13)
    faults = [k for k in ("loss", "dup", "delay", "stall", "skew") if rng.random() < 0.35]
    local_ev, t = [], t0 + rng.choice([0, period, 3 * period])
    for i in range(n_local):
        local_ev.append([t, i])
        t += rng.choice([period, period, period // 2, 2 * period, 0, 5 * period, rng.randrange(1, 3 * period)])
    sc = {"mode": mode, "x64": rng.random() < 0.3, "trace": rng.random() < 0.5, "streams": [], "consts": [], "vseed": rng.randrange(10**9), "values": rng.choice(["default", "default", "custom"]), "unit": rng.choice(["ns", "ns", "ns", "us"])}
    kinds_var = ["f", "f", "i", "b", "f2", "f3", "i2", "f22"]
    if mode != "merge":
        kinds_var += ["s", "dt"]
        if rng.random() < 0.05:
            kinds_var = ["s2"]
    sc["local"] = {"events": local_ev, "vars": [{"kind": rng.choice(kinds_var), "k": rng.randrange(1, 4)} for _ in range(rng.randrange(1, 3))]}
    for s in range(rng.choice([1, 1, 2, 3])):
        p = max(int(period * rng.choice([0.2, 0.5, 1, 1, 2, 5])), 1)
        ev = source(rng, rng.randrange(1, 16), p, t0 + rng.randrange(-p, 2 * p), faults)
        if rng.random() < 0.4 and local_ev:  # ties with the local clock
            for e in ev:
                if rng.random() < 0.3:
                    e[0] = rng.choice(local_ev)[0]
            ev.sort(key=lambda e: (e[0], e[1]))
        st = {
            "events": ev,
            "freq": daily and rng.random() < 0.6,
            "ffill": rng.random() < 0.5,
            "maxlen": rng.choice([0, 0, 1, 2, 3, 5]),
            "vars": [{"kind": rng.choice(kinds_var), "k": rng.randrange(1, 4)} for _ in range(rng.choice([1, 1, 2]))],
            "dies": rng.randrange(0, len(ev)) if mode == "merge" and rng.random() < 0.08 else -1,
        }
        sc["streams"].append(st)
    if mode != "merge":
        for _ in range(rng.choice([0, 0, 1, 2])):
            sc["consts"].append({"shape": rng.choice([[], [1], [3], [2, 3]]), "kind": rng.choice(["f", "i"])})
    sc["interleave"] = [rng.randrange(2) for _ in range(2 * n_local)] if mode == "merge" and rng.random() < 0.25 else []
    return sc


# ------------------------------------------------------------------ values


def make_var(v, ids, name, vseed):
    from sim.core import rng_for

    kind, k = v["kind"], v["k"]
    n = len(ids)
    r = rng_for(vseed, name)
    base = r.randrange(1, 50) * 1000
    if kind in ("s", "s2"):
        if kind == "s":
            return np.array([f"w{(i * 7 + base) % 5}" for i in ids]).astype(str)
        return np.array([[f"w{(i * 7 + j * 3 + base) % 9}" for j in range(k)] for i in ids]).astype(str)
    if kind == "dt":
        return np.array([base * 10**9 + i for i in ids], dtype="int64").astype("M8[ns]")
    if kind == "b":
        return np.array([((i * 2654435761 + base) >> 3) % 2 == 0 for i in ids])
    shape = {"f": (), "i": (), "f2": (k,), "i2": (k,), "f3": (k, 2), "f22": (k, k)}[kind]
    m = int(np.prod(shape)) if shape else 1
    x = np.array([[base + i * 16 + j for j in range(m)] for i in ids], dtype=np.int64).reshape((n,) + shape)
    if kind[0] == "f":
        x = x.astype(np.float64) + 0.5
        for i in range(n):
            if (ids[i] * 31 + base) % 11 == 0:
                x[i] = np.nan
    return x


def build(sc):
    """xarray dataset with one time dimension per stream, and the raw tables."""
    import xarray as xr

    ds = xr.Dataset()
    tabs = {}
    streams = [("loc", sc["local"])] + [(f"s{i}", s) for i, s in enumerate(sc["streams"])]
    for name, s in streams:
        ids = [e[1] for e in s["events"]]
        times = (np.array([e[0] for e in s["events"]], dtype="int64") * MS).astype("M8[ns]").astype(f"M8[{sc['unit']}]")
        tabs[name] = {"times": [e[0] for e in s["events"]], "vars": {}}
        ds = ds.assign_coords({name: (name, times)})
        for j, v in enumerate(s["vars"]):
            x = make_var(v, ids, f"{name}_{j}", sc["vseed"])
            dims = (name,) + tuple(f"{name}_{j}_d{q}" for q in range(x.ndim - 1))
            ds[f"{name}_v{j}"] = xr.DataArray(x, dims=dims, coords={name: times})
            tabs[name]["vars"][f"{name}_v{j}"] = (v["kind"], x)
    consts = {}
    for j, c in enumerate(sc["consts"]):
        n = int(np.prod(c["shape"])) if c["shape"] else 1
        x = (np.arange(n).reshape(c["shape"]) * 3 + 7 + j).astype(np.float64 if c["kind"] == "f" else np.int64)
        ds[f"c{j}"] = xr.DataArray(x, dims=tuple(f"c{j}_d{q}" for q in range(x.ndim)))
        consts[f"c{j}"] = x
    return ds, tabs, consts


def cut_of(t, freq):
    return (t // DAY) * DAY if freq else t


def model(sc, tabs):
    """Per local step and stream: list of row indices delivered, or None = initial fill."""
    out = []
    pos = {i: 0 for i in range(len(sc["streams"]))}
    prev = {i: None for i in range(len(sc["streams"]))}
    for t in tabs["loc"]["times"]:
        step = {}
        for i, s in enumerate(sc["streams"]):
            times = tabs[f"s{i}"]["times"]
            c = cut_of(t, s["freq"])
            a = pos[i]
            while pos[i] < len(times) and times[pos[i]] < c:
                pos[i] += 1
            new = pos[i] - a
            if new == 0:
                rows = prev[i] if s["ffill"] else None
            elif s["maxlen"]:
                rows = list(range(max(0, pos[i] - s["maxlen"]), pos[i]))
                rows = [-1] * (s["maxlen"] - len(rows)) + rows
            else:
                rows = [pos[i] - 1]
            if s["ffill"]:
                prev[i] = rows
            step[i] = (rows, new, pos[i] == len(times))
        out.append(step)
    return out


FILL = {"f": np.nan, "i": -99999, "u": 0, "b": False}


def expect(x, rows, maxlen, fills):
    """Rows of the table x (already encoded), with the fill value where nothing is known."""
    fill = np.full(x.shape[1:], fills[x.dtype.kind], dtype=x.dtype)
    if maxlen:
        rows = rows if rows is not None else [-1] * maxlen
        return np.stack([fill if r < 0 else x[r] for r in rows])
    return fill if rows is None or rows[0] < 0 else x[rows[0]]


def encoded(kind, x):
    if kind in ("s", "s2"):
        return np.unique(x, return_inverse=True)[1].reshape(x.shape).astype(np.int32)
    if kind == "dt":
        v = x.astype("int64")
        return np.stack([(v >> 32) & 0xFFFFFFFF, v & 0xFFFFFFFF], axis=1).astype(np.uint32)
    return x


class SourceDied(Exception):
    pass


def run(sc, ctx):
    import jax

    jax.config.update("jax_enable_x64", bool(sc["x64"]))
    ds, tabs, consts = build(sc)
    if not tabs["loc"]["times"] or not sc["local"]["vars"]:
        ctx.nontrivial = False
        return
    for s in sc["streams"]:
        if not s["events"]:
            ctx.nontrivial = False
            return
        for e in s["events"]:
            if e[2]:
                ctx.fault("message-" + e[2])
    t_all = [t for tab in tabs.values() for t in tab["times"]]
    ctx.sim_time = (max(t_all) - min(t_all)) / 1000.0
    want = model(sc, tabs)
    prevb = {}
    for k, st in enumerate(want):
        t = tabs["loc"]["times"][k]
        for i, (rows, new, ended) in st.items():
            s = sc["streams"][i]
            b = min(new, 3) if not s["maxlen"] else min(new, s["maxlen"] + 1)
            ctx.state(sc["mode"], sc["trace"], s["maxlen"], s["ffill"], s["freq"], b, prevb.get(i))
            prevb[i] = b
            if s["maxlen"] and new:
                ctx.probe("buffered")
                if any(v["kind"] in ("f2", "f3", "i2", "f22") for v in s["vars"]):
                    ctx.probe("multi-dim-buffered")
            if s["maxlen"] and new > s["maxlen"]:
                ctx.probe("buffer-overflow")
            if new > 3:
                ctx.probe("burst")
            if not new:
                ctx.probe("ffill-used" if rows is not None else "init-fill")
            if t in tabs[f"s{i}"]["times"]:
                ctx.probe("tie")
            if s["freq"]:
                ctx.probe("daily-floor")
            if ended:
                ctx.probe("exhausted")
    if min(t_all) < 0:
        ctx.probe("pre-1970")
    if consts:
        ctx.probe("constant-array")
    ctx.nontrivial = any(st[i][1] for st in want for i in st) and (ctx.faults != {} or any(p in ctx.probes for p in ("buffered", "init-fill", "ffill-used")))
    from wax.stream import Stream

    kw = dict(
        local_time="loc",
        freqs={f"s{i}": "d" for i, s in enumerate(sc["streams"]) if s["freq"]},
        ffills={f"s{i}": True for i, s in enumerate(sc["streams"]) if s["ffill"]},
        buffer_maxlen={f"s{i}": s["maxlen"] for i, s in enumerate(sc["streams"]) if s["maxlen"]},
        verbose=False,
        pbar=False,
    )
    if sc["mode"] == "merge":
        run_merge(sc, ctx, ds, tabs, want, Stream, kw)
    else:
        run_dataset(sc, ctx, ds, tabs, consts, want, Stream, kw)


def live(gen, times, dies):
    """A remote source: yields what the dataset stream yields, may die half way."""
    n = -1
    for obs in gen:
        if dies >= 0 and n == dies:
            raise SourceDied(f"source died before observation {dies}")
        n += 1
        yield obs


def run_merge(sc, ctx, ds, tabs, want, Stream, kw):
    from wax.stream import split_dataset_from_time_dims

    trace = sc["trace"]
    fills = dict(FILL)
    if not trace and sc["values"] == "custom":
        fills.update(f=-1.0, i=-7)
        kw["buffer_dtype_init_values"] = {np.float64: -1.0, np.int64: -7, np.bool_: False}
    datasets = split_dataset_from_time_dims(ds)
    stream = Stream(trace=trace, **kw)
    n_s = 2 if sc["interleave"] else 1
    if n_s == 2:
        ctx.probe("two-sessions")
    order = list(sc["interleave"]) if n_s == 2 else []
    merged, step, ended = [], [0] * n_s, [False] * n_s
    for _ in range(n_s):
        gens = stream.start_dataset_streams(datasets)
        for i, s in enumerate(sc["streams"]):
            gens[f"s{i}"] = live(gens[f"s{i}"], None, s["dies"])
        merged.append(stream.merge(gens))

    def first_death():
        """Local step at which the death of a source must have come to light."""
        out = None
        for i, s in enumerate(sc["streams"]):
            d = s["dies"]
            if d < 0 or d >= len(tabs[f"s{i}"]["times"]):
                continue
            for k, t in enumerate(tabs["loc"]["times"]):
                c = cut_of(t, s["freq"])
                if tabs[f"s{i}"]["times"][d] < c:
                    out = k if out is None else min(out, k)
                    break
        return out

    death = first_death()
    if n_s == 1 and all(s["dies"] < 0 for s in sc["streams"]) and len(want) > 1 and sc["vseed"] % 3 == 0:
        return run_collect(sc, ctx, tabs, want, merged[0], trace, fills)
    while not all(ended):
        q = order.pop(0) if order else ended.index(False)
        if ended[q]:
            continue
        k = step[q]
        try:
            obs = next(merged[q])
        except StopIteration:
            ended[q] = True
            ctx.check(k == len(want), "steps", f"the merged stream ended after {k} of {len(want)} local observations")
            continue
        except SourceDied:
            ctx.fault("source-died")
            ctx.probe("source-died")
            ended[q] = True
            continue
        ctx.log(q, k, str(obs["loc"].time))
        if k >= len(want):
            ctx.fail("steps", f"more than {len(want)} merged observations")
        if death is not None and k >= death:
            ctx.fail("silent-source-death", f"step {k}: a source died, its lost observations were passed over in silence")
        step[q] += 1
        for name, s in [("loc", None)] + [(f"s{i}", s) for i, s in enumerate(sc["streams"])]:
            rows, maxlen = ([k], 0) if s is None else (want[k][int(name[1:])][0], s["maxlen"])
            o = obs[name]
            if trace:
                names = list(tabs[name]["vars"])
                exp = {v: expect(np.arange(len(tabs[name]["times"])), rows, maxlen, FILL) for v in names}
            else:
                exp = {v: expect(x, rows, maxlen, fills) for v, (_, x) in tabs[name]["vars"].items()}
            if set(o.value) != set(exp):
                ctx.fail("variables", f"step {k} stream {name}: variables {sorted(o.value)} instead of {sorted(exp)}")
            for v in exp:
                got = np.asarray(o.value[v])
                ctx.logv(v, got)
                ctx.equal(got, np.asarray(exp[v]), "merge-value", f"step {k} (t={tabs['loc']['times'][k]} ms) variable {v}, expected rows {rows}")
            tm = list(o.time) if maxlen else [o.time]
            rr = rows if rows is not None else [-1] * (maxlen or 1)
            got_t = [None if str(x) in ("NaT", "None") else int(np.datetime64(x, "ns").astype("int64")) // MS for x in tm]
            exp_t = [None if r < 0 else tabs[name]["times"][r] for r in rr]
            ctx.check(got_t == exp_t, "merge-time", f"step {k} stream {name}: observation times {got_t} instead of {exp_t}")


def run_collect(sc, ctx, tabs, want, merged, trace, fills):
    """The whole merged stream collected at once, with or without its first step."""
    from wax.stream import unroll_stream

    ctx.probe("collected")
    skip = sc["vseed"] % 2
    out = unroll_stream(merged, skip_first=bool(skip), pbar=False)
    for name, s in [("loc", None)] + [(f"s{i}", s) for i, s in enumerate(sc["streams"])]:
        maxlen = s["maxlen"] if s else 0
        for v, (_, x) in tabs[name]["vars"].items():
            x = np.arange(len(x)) if trace else x
            rows = [[k] if s is None else want[k][int(name[1:])][0] for k in range(skip, len(want))]
            exp = np.stack([np.asarray(expect(x, r, maxlen, FILL if trace else fills)) for r in rows])
            ctx.logv(v, out[name].value[v])
            ctx.equal(out[name].value[v], exp, "collected-value", f"variable {v}, skip_first={bool(skip)}, rows {rows[:6]}")


def run_dataset(sc, ctx, ds, tabs, consts, want, Stream, kw):
    import jax
    from jax.tree_util import tree_map

    rows2d = []

    def module(d):
        return dict(d)

    if sc["mode"] == "accessor":
        from wax.accessors import register_wax_accessors

        register_wax_accessors()
        ctx.probe("accessor")
        out, _ = ds.wax.stream(format_outputs=False, **kw).apply(module)
    else:
        fn, xs = Stream(**kw).prepare(ds, module)
        params, state = fn.init(jax.random.PRNGKey(0), xs)
        out, _ = fn.apply(params, state, jax.random.PRNGKey(0), xs)
    out = tree_map(np.asarray, out)
    names = [v for tab in tabs.values() for v in tab["vars"]] + list(consts)
    if set(out) != set(names):
        ctx.fail("variables", f"variables {sorted(out)} instead of {sorted(names)}")
    x64 = sc["x64"]

    def cast(x):
        if not x64 and x.dtype == np.float64:
            return x.astype(np.float32)
        if not x64 and x.dtype == np.int64:
            return x.astype(np.int32)
        return x

    n = len(want)
    for name, tab in tabs.items():
        for v, (kind, x) in tab["vars"].items():
            if kind in ("s", "s2"):
                ctx.probe("string")
            e = encoded(kind, x)
            s = None if name == "loc" else sc["streams"][int(name[1:])]
            maxlen = 0 if s is None else s["maxlen"]
            rows_k = [[k] if s is None else want[k][int(name[1:])][0] for k in range(n)]
            exp = np.stack([np.asarray(expect(cast(e), r, maxlen, FILL)) for r in rows_k])
            ctx.logv(v, out[v])
            if kind == "s2":
                if out[v].shape == exp.shape and np.array_equal(out[v], exp):
                    continue
                flat = e.ravel()
                old = np.stack([np.asarray(expect(cast(flat), r, maxlen, FILL)) for r in rows_k])
                if out[v].shape == old.shape and np.array_equal(out[v], old):
                    ctx.violate("string-matrix-row", f"variable {v}: a row of {x.shape[1]} strings reaches the module as one element of the flattened table")
                    continue
            ctx.equal(out[v], exp, "traced-value", f"variable {v} ({kind}, buffer {maxlen}), rows {rows_k[:6]}")
    for c, x in consts.items():
        exp = np.stack([cast(np.atleast_1d(x)) if x.ndim else cast(x) for _ in range(n)])
        ctx.logv(c, out[c])
        ctx.equal(out[c], exp, "constant", f"constant {c} of shape {x.shape}")
    _ = rows2d
