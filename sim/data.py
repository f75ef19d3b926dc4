"""Simulated observations with outages, shared by the streaming checks."""

import numpy as np

from .core import rng_for


def outages(rng, T, kinds):
    """Plan of faults on the way of the data: [[step, lane, kind]]; lane -1 = all lanes."""
    out = []
    for t in range(T):
        if "gap" in kinds and rng.random() < 0.15:
            out.append([t, rng.choice([-1, 0, 1, 2]), "nan"])
        if "inf" in kinds and rng.random() < 0.1:
            out.append([t, rng.choice([-1, 0, 1]), rng.choice(["inf", "-inf"])])
        if "dup" in kinds and t and rng.random() < 0.12:
            out.append([t, -1, "dup"])
        if "huge" in kinds and rng.random() < 0.05:
            out.append([t, rng.choice([0, 1]), "huge"])
    if "burst" in kinds:
        a = rng.randrange(T)
        for t in range(a, min(T, a + rng.randrange(2, 6))):
            out.append([t, -1, "nan"])
    if "start" in kinds:
        for t in range(rng.randrange(1, 4)):
            if t < T:
                out.append([t, rng.choice([-1, 0]), "nan"])
    return out


def make(vseed, T, shape, plan, ctx=None, dtype=np.float64, p_event=0.4):
    """{x, y, e, r, n} with leading axis T. y is always complete and finite."""
    g = np.random.default_rng(rng_for(vseed, "data").randrange(2**32))
    x = np.round(g.normal(size=(T,) + tuple(shape)) * 2 + 3, 3).astype(dtype)
    y = np.round(g.normal(size=(T,) + tuple(shape)), 3).astype(dtype)
    n = g.integers(0, 3, size=(T,))
    e = g.random(T) < p_event
    r = g.random(T) < 0.25
    for t, lane, kind in plan:
        if t >= T:
            continue
        if ctx is not None:
            ctx.fault("data-" + kind)
        if kind == "dup":
            if t:
                x[t] = x[t - 1]
            continue
        v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e6}[kind]
        if lane < 0 or not shape:
            x[t] = v
        else:
            x[t].reshape(-1)[lane % int(np.prod(shape))] = v
    return {"x": x, "y": y, "e": e, "r": r, "n": n}


def cuts(rng, T, n):
    """Segment lengths of a run of T steps, all positive."""
    pts = sorted(set(rng.randrange(1, T) for _ in range(n))) if T > 1 else []
    pts = [0] + pts + [T]
    return [b - a for a, b in zip(pts, pts[1:])]


def window(d, a, b):
    return {k: v[a:b] for k, v in d.items()}


def at(d, t):
    return {k: v[t] for k, v in d.items()}


def pickled(tree):
    """What a crash leaves: the bytes of the saved tree, read back."""
    import pickle

    import jax

    tree = jax.device_get(tree)
    try:
        return pickle.loads(pickle.dumps(tree))
    except (pickle.PicklingError, AttributeError):
        # named tuples made at run time: save the leaves, put them back into the same structure
        leaves, treedef = jax.tree_util.tree_flatten(tree)
        return treedef.unflatten(pickle.loads(pickle.dumps(leaves)))
