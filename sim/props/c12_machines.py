"""C12 - composed state machines run in dependency order and contain failures."""

import json
import os
import subprocess
import sys
import warnings

import numpy as np

RUNS = {"quick": 400, "thorough": 20000}
SEARCH = "dependency graphs, registration orders, hash seeds, failing components with the step, the point and the exception of each failure, crashes and interrupted steps"
RULE = (
    "One run builds a machine (hierarchical state machine, also nested, hierarchical state, composite manager) from up to six stateful "
    "components over a random dependency graph, registered in random order, and drives it for some steps while components fail before, "
    "between or after their state updates, steps are interrupted and the machine is dropped and rebuilt from saved bytes. Every "
    "component's output is compared with the component driven alone, over the steps at which it did not fail; the order of execution is "
    "recorded by the components. A part of the runs asks interpreters with other hash seeds for their order. Non-trivial: two components ran."
)
STATE_MEASURE = "distinct (machine, strategy, graph shape, failing subsets and points, way of driving)"
REAL = ["wax.flax.core.advanced_state_patterns", "HierarchicalState, streaming transforms, flax_transform_with_state", "EWMA, Buffer", "JAX, Flax"]
STUB = ["the components' own failures", "process crash (everything but saved bytes dropped)", "hash seeds (interpreters started with given ones)"]
ASSUMPTIONS = [
    "components with parameters do not fail while they are initialised",
    "failures inside compiled code happen while it is traced, the same at every step",
    "composite managers and hierarchical states pass failures on to the caller",
]
PROBES = ["machine", "nested", "state", "composite", "sequential", "parallel", "hierarchical", "fail-start", "fail-mid", "fail-end", "fail-init", "fail-sub", "interrupted", "crash", "jit", "scan", "decorator", "transform", "apply", "cycle", "self", "unknown", "hash-seeds", "permuted", "odd-name", "dict-output", "subset", "error-key", "all-fail"]
SHRINK_LISTS = ["comps", "fails", "crash", "interrupt"]
SHRINK_INTS = [("T", 1)]

EXCS = ["ValueError", "KeyError", "RuntimeError", "ZeroDivisionError", "AssertionError", "TypeError", "StopIteration", "OSError", "MemoryError", "Boom"]
NAMES = ["a", "b", "c", "d", "e", "f", "market", "volatility", "state", "list", "coordination", "name_list", "modules", "a_1", "Z", "dependencies"]


class Boom(Exception):
    pass


def exc(name):
    return Boom if name == "Boom" else getattr(__import__("builtins"), name)


def gen(rng, idx, tier):
    if rng.random() < (0.01 if tier == "quick" else 0.003):
        return {"kind": "hash", "graphs": [graph(rng, 6) for _ in range(12)], "hashseeds": [rng.randrange(1, 10**6) for _ in range(2)], "comps": []}
    kind = rng.choice(["machine"] * 6 + ["nested", "nested", "state", "state", "composite"])
    g = graph(rng, rng.randrange(1, 7))
    T = rng.choice([2, 3, 4, 6])
    drive = rng.choice(["apply", "apply", "apply", "transform", "decorator", "jit", "scan"])
    comps = [
        {"name": n, "deps": d, "kind": rng.choice(["acc", "acc", "acc", "ewma", "buffer", "param"]), "k": rng.choice([1.0, 0.5, -2.0]), "out": rng.choice(["array", "array", "dict"]), "error": rng.random() < 0.3, "in": rng.random() < 0.4}
        for n, d in g
    ]
    fails = []
    if kind != "composite" and rng.random() < 0.7:
        for _ in range(rng.randrange(1, 5)):
            fails.append({"c": rng.randrange(len(comps)), "t": rng.choice([0, 1, 1, 2, 3, 4]), "at": rng.choice(["start", "mid", "mid", "end", "sub"]), "exc": rng.choice(EXCS)})
        if rng.random() < 0.1:
            fails += [{"c": i, "t": 1, "at": "mid", "exc": "Boom"} for i in range(len(comps))]
    bad = rng.choice([None] * 7 + ["cycle", "self", "unknown"])
    return {
        "kind": kind, "comps": comps, "strategy": rng.choice(["sequential", "parallel", "hierarchical", "hierarchical"]), "T": T, "drive": drive, "fails": fails, "bad": bad,
        "perm": [rng.random() for _ in range(6)], "interrupt": sorted(rng.sample(range(1, T), rng.choice([0, 0, 0, 1]))), "crash": [rng.randrange(1, T) for _ in range(rng.choice([0, 0, 1, 2]))],
        "seed": rng.randrange(10**6), "shape": rng.choice([[], [], [2]]), "none": rng.random() < 0.2, "badpick": rng.randrange(100), "wide": rng.random() < 0.2,
    }  # fmt: skip


def graph(rng, n):
    """(name, dependencies) in registration order; acyclic."""
    names = rng.sample(NAMES, n)
    p = rng.choice([0.2, 0.5, 0.8])
    g = [[names[i], [names[j] for j in range(i) if rng.random() < p]] for i in range(n)]
    for _, d in g:
        rng.shuffle(d)
    rng.shuffle(g)
    return g


class World:
    """What the components of the running machine see: when to fail, and a log of who ran."""

    def __init__(self):
        self.log = []
        self.plan = {}
        self.quiet = False

    def at(self, cid, point):
        if self.quiet:
            return
        if point == "start":
            self.log.append(cid)
        f = self.plan.get(cid)
        if f and f[0] == point:
            raise exc(f[1])(f"{cid} fails")


W = World()
_mods = {}


def modules():
    if _mods:
        return _mods
    import jax.numpy as jnp
    from flax import linen as nn
    from wax.flax.modules.buffer import Buffer
    from wax.flax.modules.ewma import EWMA

    class Sub(nn.Module):
        cid: str

        @nn.compact
        def __call__(self, x):
            c = self.variable("state", "c", lambda: jnp.zeros(()))
            c.value = c.value + 1.0
            W.at(self.cid, "sub")
            return c.value

    class Comp(nn.Module):
        cid: str
        kind: str
        k: float
        out: str
        error: bool

        @nn.compact
        def __call__(self, x, **deps):
            W.at(self.cid, "start")
            s = self.variable("state", "s", lambda: jnp.zeros(jnp.shape(x)))
            n = self.variable("state", "n", lambda: jnp.zeros((), jnp.int32))
            s.value = s.value + self.k * x
            for d in sorted(deps):
                v = deps[d]
                s.value = s.value + 0.25 * (v["level"] if isinstance(v, dict) else v)
            W.at(self.cid, "mid")
            y = s.value
            if self.kind == "ewma":
                y = y + EWMA(com=2.0)(x)
            elif self.kind == "buffer":
                y = y + jnp.nansum(Buffer(2, fill_value=0.0)(x), axis=0)
            elif self.kind == "param":
                y = y + self.param("w", lambda k: jnp.full((), 0.5)) * x
            y = y + 0.01 * Sub(self.cid)(x)
            n.value = n.value + 1
            y = y + 100.0 * n.value
            W.at(self.cid, "end")
            if self.out == "dict":
                r = {"level": y, "step": y * 0 + n.value}
                if self.error:  # a prediction error, not a failure
                    r["error"] = y * 0.5
                return r
            return y

    _mods.update(Comp=Comp)
    return _mods


def make_comp(c, prefix=""):
    return modules()["Comp"](cid=prefix + c["name"], kind=c["kind"], k=c["k"], out=c["out"], error=c["error"])


def split(sc):
    """The components of the outer machine and those of the machine inside it."""
    if sc["kind"] != "nested":
        return sc["comps"], []
    inner = [c for c in sc["comps"] if c["in"]]
    outer = [c for c in sc["comps"] if not c["in"]]
    return outer, inner


def keep(comps):
    names = {c["name"] for c in comps}
    return [dict(c, deps=[d for d in c["deps"] if d in names]) for c in comps]


INNER = "inner machine"


class Ref:
    """One component driven alone."""

    def __init__(self, c, prefix):
        self.m = make_comp(c, prefix)
        self.v = None

    def step(self, x, deps, first):
        import jax

        W.quiet = True
        try:
            if first:
                y, self.v = self.m.init_with_output(jax.random.PRNGKey(0), x, **deps)
            else:
                y, new = self.m.apply(self.v or {}, x, **deps, mutable=["state"])
                self.v = {**(self.v or {}), **new}
            return jax.device_get(y)
        finally:
            W.quiet = False


def levels(comps):
    by = {c["name"]: c for c in comps}

    def depth(n):
        return 1 + max((depth(d) for d in by[n]["deps"]), default=-1)

    out = {}
    for n in sorted(by):
        out.setdefault(depth(n), []).append(n)
    return out


def blend(comps, outs, strategy):
    """Higher levels influence the numbers of lower ones in the hierarchical strategy."""
    if strategy != "hierarchical":
        return outs
    lv = levels(comps)
    done = {}
    for depth in sorted(lv):
        for n in lv[depth]:
            y = outs[n]
            if isinstance(y, dict):
                y = dict(y)
                for above in range(depth):
                    for h in lv[above]:
                        hy = done[h]
                        if isinstance(hy, dict):
                            for key in y:
                                if key in hy and not isinstance(y[key], (str, dict)) and not isinstance(hy[key], (str, dict)):
                                    y[key] = 0.9 * y[key] + 0.1 * hy[key]
            done[n] = y
    return done


class Reference:
    def __init__(self, sc):
        self.sc = sc
        outer, inner = split(sc)
        self.outer, self.inner = keep(outer), keep(inner)
        self.refs = {c["name"]: Ref(c, "") for c in self.outer}
        self.inrefs = {c["name"]: Ref(c, "in/") for c in self.inner}

    def machine(self, comps, refs, prefix, x, first, plan):
        outs = {}
        for c in comps:
            n = c["name"]
            f = plan.get(prefix + n)
            outs[n] = {"status": "failed"} if f else refs[n].step(x, {}, first)
        return blend(comps, outs, self.sc["strategy"])

    def step(self, x, first, plan):
        sc = self.sc
        if sc["kind"] in ("machine", "nested"):
            comps = self.outer
            if sc["kind"] == "nested" and self.inner:
                ins = self.machine(self.inner, self.inrefs, "in/", x, first, plan)
                # the inner machine is one more component without dependencies
                outs = {}
                for c in comps:
                    f = plan.get(c["name"])
                    outs[c["name"]] = {"status": "failed"} if f else self.refs[c["name"]].step(x, {}, first)
                outs[INNER] = ins
                return blend(comps + [{"name": INNER, "deps": []}], outs, sc["strategy"])
            return self.machine(comps, self.refs, "", x, first, plan)
        outs = {}
        if sc["kind"] == "state":
            by = {c["name"]: c for c in self.outer}
            while len(outs) < len(by):
                for n in sorted(by):
                    if n not in outs and all(d in outs for d in by[n]["deps"]):
                        outs[n] = self.refs[n].step(x, {d: outs[d] for d in by[n]["deps"]}, first)
            return outs
        for c in self.outer:
            y = self.refs[c["name"]].step(x, {}, first)
            outs[c["name"]] = y
            if sc["strategy"] != "parallel":
                x = y
        return outs


def build(sc, order=None):
    """-> the machine under test (a Flax module)."""
    from wax.flax.core.advanced_state_patterns import CompositeStateManager, HierarchicalStateMachine
    from wax.flax.core.streaming_transforms import HierarchicalState

    outer, inner = split(sc)
    outer, inner = keep(outer), keep(inner)
    if order is not None:
        outer = [outer[i] for i in order if i < len(outer)]
    deps = {c["name"]: list(c["deps"]) for c in outer if c["deps"] or sc["wide"]}
    spoil(sc, outer, deps)
    mods = {c["name"]: make_comp(c) for c in outer}
    if sc["kind"] == "composite":
        return lambda: CompositeStateManager(mods, "parallel" if sc["strategy"] == "parallel" else "pipeline"), mods, deps
    if sc["kind"] == "state":
        return lambda: HierarchicalState(mods, deps or None), mods, deps
    if inner:
        imods = {c["name"]: make_comp(c, "in/") for c in inner}
        ideps = {c["name"]: list(c["deps"]) for c in inner if c["deps"]}
        mods[INNER] = HierarchicalStateMachine(imods, ideps, sc["strategy"])
    return lambda: HierarchicalStateMachine(mods, deps if deps or not sc["none"] else None, sc["strategy"]), mods, deps


def spoil(sc, comps, deps):
    """Add a cycle, or a dependency that does not exist."""
    if not sc["bad"] or not comps or sc["kind"] == "composite":
        return
    names = [c["name"] for c in comps]
    r = sc["badpick"]
    n = names[r % len(names)]
    if sc["bad"] == "unknown":
        deps.setdefault(n, []).append("no such component")
    elif sc["bad"] == "self" or len(names) == 1:
        deps.setdefault(n, []).append(n)
    else:
        k = 2 + r % (len(names) - 1)
        ring = [names[(r + i) % len(names)] for i in range(k)]
        for a, b in zip(ring, ring[1:] + ring[:1]):
            if b not in deps.setdefault(a, []):
                deps[a].append(b)


def run(sc, ctx):
    import jax

    jax.config.update("jax_enable_x64", False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if sc["kind"] == "hash":
            return run_hash(sc, ctx)
        go(sc, ctx)


def go(sc, ctx):
    import jax
    import jax.numpy as jnp

    from sim.data import pickled
    from wax.flax.core import advanced_state_patterns as asp
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.core.transform import flax_transform_with_state

    outer, inner = split(sc)
    if not outer:
        ctx.nontrivial = False
        return
    outer, inner = keep(outer), keep(inner)
    kind, T = sc["kind"], max(1, sc["T"])
    ctx.probe(kind)
    ctx.nontrivial = len(outer) > 1 or bool(inner)
    if kind in ("machine", "nested"):
        ctx.probe(sc["strategy"])
    if any(c["name"] in ("name_list", "modules", "coordination", "dependencies") for c in outer):
        ctx.probe("odd-name")
    if any(c["out"] == "dict" for c in outer):
        ctx.probe("dict-output")
        if any(c["out"] == "dict" and c["error"] for c in outer):
            ctx.probe("error-key")
    if kind in ("state", "composite") or sc["bad"]:
        sc = dict(sc, fails=[])
    if kind == "composite":
        for c in outer + sc["comps"]:
            c["out"] = "array"
    drive = sc["drive"]
    if drive == "decorator" and (kind not in ("machine", "composite") or sc["bad"]):
        drive = "transform"
    if drive == "scan" and kind == "state":
        drive = "transform"

    # --- when who fails
    plans = [{} for _ in range(T)]
    cids = [c["name"] for c in outer] + ["in/" + c["name"] for c in inner]
    kinds = {**{c["name"]: c["kind"] for c in outer}, **{"in/" + c["name"]: c["kind"] for c in inner}}
    always = drive in ("jit", "scan")
    for f in sc["fails"]:
        cid = cids[f["c"] % len(cids)]
        t = f["t"] % T
        if kinds[cid] in ("param", "ewma") and (always or t == 0):
            continue
        if not f.get("all"):
            plans[t][cid] = (f["at"], f["exc"])
    if always:
        # compiled once: the same failures at every step, initialisation included
        merged = {}
        for p in plans:
            merged.update(p)
        plans = [merged for _ in range(T)]
    rs = np.random.RandomState(sc["seed"])
    xs = [jnp.asarray(rs.randint(-8, 9, size=sc["shape"]) / 4.0, jnp.float32) for _ in range(T)]
    shape = tuple(sorted(len(c["deps"]) for c in outer))
    ctx.state(kind, sc["strategy"], shape, tuple(tuple(sorted((f[0] for f in p.values()))) for p in plans), drive, bool(inner))

    make, mods, deps = build(sc)
    kw = (lambda x: {"x": x}) if kind == "state" else None
    args = (lambda x: ()) if kind == "state" else (lambda x: (x,))
    kw = kw or (lambda x: {})

    class Machine:
        """init and step of the machine in the drawn way."""

        def __init__(self):
            self.make = build(sc)[0]
            self.m = self.make()
            if drive in ("decorator", "scan"):
                if kind == "composite":
                    names = list(mods)
                    t = asp.streaming_compose_states(*mods.values(), strategy="parallel" if sc["strategy"] == "parallel" else "pipeline")(lambda out, x: out)
                    self.rename = {f"pattern_{i}": n for i, n in enumerate(names)}
                elif drive == "decorator":
                    t = asp.streaming_state_machine(dict(mods), deps if deps or not sc["none"] else None, sc["strategy"])(lambda out, x: out)
                    self.rename = None
                else:
                    t = streaming_transform_with_state(lambda x: self.make()(x))
                    self.rename = None
                self.t = t
            elif drive in ("transform", "jit"):
                self.t, self.rename = flax_transform_with_state(self.m), None
            else:
                self.t, self.rename = None, None
            if drive == "jit":
                self.japply = jax.jit(lambda p, s, x: jax.tree_util.tree_map(strip, self.t.apply(p, s, None, *args(x), **kw(x)), is_leaf=lambda v: isinstance(v, str)))

        def init(self, x):
            key = jax.random.PRNGKey(0)
            if self.t is None:
                y, v = self.m.init_with_output(key, *args(x), **kw(x))
                return y, v.get("params", {}), {k: a for k, a in v.items() if k != "params"}
            p, s = self.t.init(key, *args(x), **kw(x))
            return None, p, s

        def named(self, y):
            return {self.rename.get(n, n): v for n, v in y.items()} if self.rename else y

        def step(self, p, s, x):
            if self.t is None:
                y, new = self.m.apply({"params": p, **s}, *args(x), **kw(x), mutable=["state"])
                return y, {**s, **new}
            if drive == "jit":
                y, s = self.japply(p, s, x)
                return self.named(y), s
            y, s = self.t.apply(p, s, None, *args(x), **kw(x))
            return self.named(y), s

    def strip(v):
        """Failure reports are no arrays: compiled functions return a code for them."""
        return jnp.float32(-1.0) if isinstance(v, str) else v

    global W
    W.log, W.plan, W.quiet = [], {}, False
    if sc["bad"] and kind != "composite":
        ctx.probe(sc["bad"])
        W.plan = {}
        try:
            got = Machine().init(xs[0])
        except Exception as e:
            ctx.check(not isinstance(e, RecursionError), "not-rejected", lambda: f"{sc['bad']} dependency {deps} ends in {e!r}", sc["bad"])
            return
        ctx.violate("not-rejected", f"dependencies {deps} of {list(mods)} ({sc['bad']}) were accepted: {W.log}, {str(got)[:200]}", sc["bad"])
        return

    all_deps = {c["name"]: c["deps"] for c in outer}
    all_deps.update({"in/" + c["name"]: ["in/" + d for d in c["deps"]] for c in inner})
    orders = []

    def order_check(log, what):
        """Every component once, after those it depends on."""
        if sorted(log) != sorted(cids):
            ctx.violate("not-once", f"{what}: components {sorted(cids)}, executed {log}", kind)
            return
        if kind == "composite":
            ctx.check(log == [c["name"] for c in outer], "order", lambda: f"{what}: patterns {[c['name'] for c in outer]} executed in order {log}", kind)
            return
        pos = {c: i for i, c in enumerate(log)}
        for c, ds in all_deps.items():
            for d in ds:
                ctx.check(pos[d] < pos[c], "order", lambda: f"{what}: {c} depends on {d}, executed in order {log}", kind)
        orders.append(log)

    def outputs_check(got, want, plan, what):
        ctx.check(set(got) == set(want), "outputs", lambda: f"{what}: outputs of {sorted(got)}, components {sorted(want)}", kind)
        for n in want:
            if n not in got:
                continue
            one_output(got[n], want[n], f"{what}: {n}", plan)

    def one_output(g, w, what, plan):
        if isinstance(w, dict) and w.get("status") == "failed":
            ok = isinstance(g, dict) and (g.get("status") == "failed" if drive not in ("jit",) else "status" in g)
            ctx.check(ok, "not-reported", lambda: f"{what} failed, its output is {str(g)[:200]}", kind)
            return
        if isinstance(g, dict) and isinstance(w, dict) and any(isinstance(v, dict) for v in w.values()):
            for k in w:
                one_output(g.get(k), w[k], f"{what}/{k}", plan)
            return
        if isinstance(g, dict) and "status" in g and not (isinstance(w, dict) and "status" in w):
            ctx.violate("stopped", f"{what} is reported as {g}, it did not fail; failing: {plan}", kind)
            return
        ctx.equal(jax.device_get(g), w, "outputs", f"{what} (failing: {plan})", kind, rtol=1e-5, atol=1e-5)

    ref = Reference(sc)

    def note(plan, t):
        for cid, f in plan.items():
            ctx.fault("component-fails")
            ctx.probe("fail-" + f[0])
            if t == 0:
                ctx.probe("fail-init")
        if plan and len(plan) == len(cids):
            ctx.probe("all-fail")

    ctx.probe(drive)
    ctx.sim_time = float(T)
    m = Machine()
    W.plan, W.log = plans[0], []
    note(plans[0], 0)
    with ctx.guard("step-failed", f"init-{kind}"):
        y, p, s = m.init(xs[0])
    order_check(W.log, "initialisation")
    want = ref.step(xs[0], True, plans[0])
    if y is not None:
        outputs_check(y, want, plans[0], "initialisation")
    if drive == "scan":
        with ctx.guard("step-failed", f"scan-{kind}"):
            W.log, W.plan = [], plans[0]
            if T > 1 and not plans[0]:
                ys, s = m.t.scan(p, s, None, jnp.stack(xs[1:]))
                ys = m.named(jax.device_get(ys))
                for t in range(1, T):
                    want = ref.step(xs[t], False, {})
                    outputs_check(jax.tree_util.tree_map(lambda a: a[t - 1], ys), want, {}, f"step {t} of a scan")
                order_check(W.log[-len(cids) :], "scan")
        plans = [dict(p_) for p_ in plans[:1]]
        T = 1
    first_jit = True
    for t in range(1, T):
        what = f"step {t}"
        x = xs[t]
        if t in sc["crash"]:
            ctx.fault("crash")
            ctx.probe("crash")
            try:
                p, s = pickled(p), pickled(s)
            except Exception as e:
                ctx.fail("state-not-saved", f"{kind}: state cannot be serialised: {e!r}", kind)
            m = Machine()
            first_jit = True
        if t in sc["interrupt"] and not always:
            ctx.fault("interrupted")
            ctx.probe("interrupted")
            victim = cids[sc["seed"] % len(cids)]
            W.plan, W.log = {victim: ("mid", "KeyboardInterrupt")}, []
            before = jax.device_get(s)
            try:
                m.step(p, s, x)
                ctx.violate("interrupt-lost", f"{what}: an interrupt in {victim} did not reach the caller", kind)
            except KeyboardInterrupt:
                pass
            ctx.equal(jax.device_get(s), before, "state-changed", f"{what}: the state of an interrupted step", kind, rtol=0, atol=0)
        W.plan, W.log = plans[t], []
        note(plans[t], t)
        before = jax.device_get(s)
        with ctx.guard("step-failed", f"{kind} {what} failing {plans[t]}"):
            y, s2 = m.step(p, s, x)
        ctx.equal(jax.device_get(s), before, "state-changed", f"{what}: the state given", kind, rtol=0, atol=0)
        s = s2
        if drive != "jit" or first_jit:
            order_check(W.log, what)
            first_jit = False
        want = ref.step(x, False, plans[t])
        outputs_check(y, want, plans[t], what)
        ctx.logv(what, {k: v for k, v in want.items()})
    # everybody is well again: what the failures left behind shows
    if sc["fails"] and not always:
        W.plan, W.log = {}, []
        with ctx.guard("step-failed", f"{kind} after the failures"):
            y, s = m.step(p, s, xs[0])
        outputs_check(y, ref.step(xs[0], False, {}), {}, "after the failures")
    ctx.check(all(o == orders[0] for o in orders), "order-differs", lambda: f"executed in orders {orders}", kind)

    # --- other registration orders
    if kind != "composite" and len(outer) > 1 and orders:
        ctx.probe("permuted")
        perm = sorted(range(len(outer)), key=lambda i: sc["perm"][i % 6])
        m2 = build(sc, perm)[0]()
        W.plan, W.log = {}, []
        with ctx.guard("step-failed", f"permuted-{kind}"):
            m2.init(jax.random.PRNGKey(0), *args(xs[0]), **kw(xs[0]))
        got = [c for c in W.log if not c.startswith("in/")]
        want = [c for c in orders[0] if not c.startswith("in/")]
        ctx.check(got == want, "order-differs", lambda: f"registered {[c['name'] for c in outer]}: executed {want}; registered in order {perm}: executed {got}", "registration")
    # --- a part of the components
    if kind == "machine" and len(outer) > 1:
        ctx.probe("subset")
        part = [c["name"] for i, c in enumerate(outer) if sc["perm"][i % 6] < 0.6]
        with ctx.guard("step-failed", "get_execution_order"):
            order = list(m.make().get_execution_order(part))
        ctx.check(sorted(order) == sorted(part), "not-once", lambda: f"order of {part} is {order}", "subset")
        for c in outer:
            for d in c["deps"]:
                if c["name"] in order and d in order:
                    ctx.check(order.index(d) < order.index(c["name"]), "order", lambda: f"{c['name']} depends on {d}, order of a part is {order}", "subset")


def run_hash(sc, ctx):
    """The same machines in interpreters with other hash seeds."""
    ctx.probe("hash-seeds")
    res = []
    for h in sc["hashseeds"]:
        ctx.fault("hash-seed")
        env = dict(os.environ, PYTHONHASHSEED=str(h), JAX_PLATFORMS="cpu", PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        r = subprocess.run([sys.executable, "-c", "from sim.props import c12_machines as c; c.child()"], input=json.dumps(sc["graphs"]), env=env, capture_output=True, text=True, timeout=240)
        lines = [x for x in r.stdout.splitlines() if x.startswith("ORDERS ")]
        if r.returncode or not lines:
            ctx.fail("step-failed", f"machines fail under hash seed {h}: {r.stderr[-500:]}", "hash")
        res.append(json.loads(lines[0][7:]))
    for g, a, b in zip(sc["graphs"], *res):
        ctx.check(a == b, "order-differs", lambda: f"dependencies {g}: executed in order {a} under hash seed {sc['hashseeds'][0]}, {b} under {sc['hashseeds'][1]}", "hash")
    ctx.log("orders", res[0])
    ctx.nontrivial = True


def child():
    import jax
    import jax.numpy as jnp
    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine
    from wax.flax.core.streaming_transforms import HierarchicalState

    warnings.simplefilter("ignore")
    out = []
    for i, g in enumerate(json.load(sys.stdin)):
        mods = {n: make_comp({"name": n, "kind": "acc", "k": 1.0, "out": "array", "error": False}) for n, _ in g}
        deps = {n: d for n, d in g if d}
        W.log, W.plan, W.quiet = [], {}, False
        if i % 3 == 2:
            HierarchicalState(mods, deps).init(jax.random.PRNGKey(0), x=jnp.zeros(()))
        else:
            HierarchicalStateMachine(mods, deps).init(jax.random.PRNGKey(0), jnp.zeros(()))
        out.append(W.log)
    print("ORDERS " + json.dumps(out))
