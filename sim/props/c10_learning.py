"""C10 - online learning survives non-finite gradients, gaps and restarts."""

import warnings

import numpy as np

RUNS = {"quick": 400, "thorough": 20000}
SEARCH = "sequences of observations with outages, bad values, lost and repeated steps, failing and crashing steps, over learners, optimisers, predicates and projections"
RULE = (
    "One run drives an online learner (Haiku or Flax: supervised learner, function optimiser, online optimiser, bare optimiser, streaming "
    "optimiser, ARMA, SNARIMAX) over a stream with bad values, outages, lost and repeated observations; steps fail inside the model, the "
    "loss, the regularisation or the projection, and the process crashes and restarts from the pickled state. Every loss, prediction, "
    "gradient and parameter is compared with a plain loop of jax.value_and_grad and optax over nested dictionaries (ARMA, SNARIMAX and the "
    "Newton optimiser: NumPy loops). Non-trivial: parameters were updated or the filter ran for two steps."
)
STATE_MEASURE = "distinct (learners, model, optimiser, predicate, loss, faults, way of driving)"
REAL = ["wax.modules: OnlineOptimizer, OnlineSupervisedLearner, FuncOptimizer, OptaxOptimizer, UpdateParams, ARMA, SNARIMAX", "wax.optim.newton", "wax.flax.modules: the same and SimpleOnlineLearner", "streaming_optimizer", "unroll, transforms", "JAX, Haiku, Flax, optax"]
STUB = ["models, losses, projections (small ones, failing when told)", "process crash (everything but the pickled state dropped)"]
ASSUMPTIONS = [
    "the first observation of a Flax learner may be learned while it is initialised, as all Flax modules of the library take their first input into account then",
    "the module name given to a Flax predicate is the one of the outermost module",
    "parameters are compared up to float32 rounding",
    "the coefficients of ARMA filters belong to the oldest value first, as in the Haiku module",
]
PROBES = [
    "h-osl", "h-func", "h-online", "h-optax", "h-arma", "h-snarimax", "f-osl", "f-simple", "f-func", "f-online", "f-onlinefn", "f-optax", "f-scale", "f-arma",
    "bad-nan", "bad-inf", "outage", "lost", "repeated", "crash", "fail-model", "fail-loss", "fail-reg", "fail-proj", "pair", "twice", "jit", "unroll", "part", "untrained", "stateful", "adamw", "newton", "unguarded", "learned",
]  # fmt: skip
SHRINK_LISTS = ["bad", "lost", "dup", "crash", "fails"]
SHRINK_INTS = [("T", 1)]

OPTS = ["sgd", "momentum", "adam", "adamw", "rmsprop", "adagrad", "newton", "clip", "schedule", "decay"]
MODELS = ["lin", "lin", "two", "two", "norm", "pstate", "count"]
PREDS = ["all", "all", "all", "w", "second", "nothing", "ndim"]


def gen(rng, idx, tier):
    side = rng.choice(["h", "f"])
    if side == "h":
        kind = rng.choice(["osl"] * 4 + ["func"] * 3 + ["online"] * 5 + ["optax", "arma", "snarimax"])
    else:
        kind = rng.choice(["osl"] * 3 + ["simple"] + ["func"] * 3 + ["online"] * 4 + ["onlinefn", "onlinefn", "optax", "scale", "arma"])
    T = rng.choice([3, 4, 5, 6, 8])
    sc = {
        "side": side, "kind": kind, "T": T, "n": rng.choice([1, 2, 3]), "seed": rng.randrange(10**6),
        "cfgs": [config(rng) for _ in range(2 if rng.random() < 0.15 else 1)],
        "twice": rng.random() < 0.12,
        "modes": [rng.choice(["step", "step", "jit", "jit", "unroll"]) for _ in range(4)],
        "cuts": sorted(rng.sample(range(1, T), min(T - 1, rng.choice([0, 0, 1, 2])))),
        "crash": [rng.randrange(1, T) for _ in range(rng.choice([0, 0, 1, 2]))],
        "bad": [], "outage": None, "lost": sorted(rng.sample(range(1, T), rng.choice([0, 0, 0, 1]))), "dup": [rng.randrange(T) for _ in range(rng.choice([0, 0, 0, 1]))], "fails": [],
        "p": rng.choice([1, 2, 3]), "q": rng.choice([0, 1, 2]), "exog": rng.choice([0, 0, 2]), "lanes": rng.choice([0, 0, 1, 3]),
    }  # fmt: skip
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        sc["bad"].append({"t": rng.randrange(T), "where": rng.choice(["x", "x", "y"]), "i": rng.randrange(3), "v": rng.choice(["nan", "nan", "inf", "-inf"])})
    if rng.random() < 0.2:
        sc["outage"] = [rng.randrange(T), rng.randrange(1, 4)]
    if rng.random() < 0.25:
        sc["fails"] = [{"t": rng.randrange(T), "at": rng.choice(["model", "loss", "reg", "proj"])} for _ in range(rng.choice([1, 1, 2]))]
    return sc


def config(rng):
    return {
        "model": rng.choice(MODELS), "loss": rng.choice(["mse", "mse", "pinball", "huber", "logcosh"]), "opt": rng.choice(OPTS), "lr": rng.choice([0.3, 0.1, 0.05]),
        "pred": rng.choice(PREDS), "reg": rng.random() < 0.35, "proj": rng.random() < 0.35, "guard": rng.random() < 0.8, "aux": rng.random() < 0.7, "transformed": rng.random() < 0.3, "wrapped": rng.random() < 0.3, "plainpred": rng.random() < 0.5,
    }  # fmt: skip


class Boom(Exception):
    pass


class World:
    armed = None

    def at(self, where):
        if self.armed == where:
            raise Boom(where)


W = World()


# ------------------------------------------------------------------ models and losses (the user's code)


def initial(model, n):
    p = {"first": {"w": [0.5, -0.25, 0.75][:n], "b": 0.125}}
    if model == "two":
        p["second"] = {"w": [0.75], "b": -0.5}
    return p


def initial_state(model, n):
    import jax.numpy as jnp

    return {"norm": lambda: jnp.zeros((n,), jnp.float32), "pstate": lambda: jnp.zeros((), jnp.float32), "count": lambda: jnp.zeros((), jnp.int32)}.get(model, lambda: None)()


def forward(P, model, x, st):
    import jax.numpy as jnp

    W.at("model")
    p = P["first"]
    if model == "norm":
        st = jnp.where(jnp.isfinite(x), st + 0.5 * (x - st), st)
        x = x - st
    y = jnp.sum(p["w"] * x) + p["b"]
    if model == "two":
        y = jnp.sum(P["second"]["w"] * jnp.tanh(y)) + P["second"]["b"]
    elif model == "pstate":
        out = y + 0.3 * st
        st = jnp.where(jnp.isfinite(out), 0.5 * st + 0.5 * out, st)
        y = out
    elif model == "count":
        st = st + 1
        y = y + 0.1 * st
    return y, st


def loss_of(name, y, p):
    import jax.numpy as jnp

    W.at("loss")
    d = y - p
    if name == "mse":
        return jnp.square(d)
    if name == "pinball":
        return jnp.where(d >= 0, 0.7 * d, -0.3 * d)
    if name == "huber":
        return jnp.where(jnp.abs(d) <= 0.5, 0.5 * d * d, 0.5 * (jnp.abs(d) - 0.25))
    return jnp.logaddexp(d, -d) - 0.25 * d


def penalty(params):
    import jax
    import jax.numpy as jnp

    W.at("reg")
    return 0.05 * sum((jnp.sum(jnp.square(v - 0.25)) for v in jax.tree_util.tree_leaves(params)), jnp.zeros(()))


def project(params):
    import jax
    import jax.numpy as jnp

    W.at("proj")
    return jax.tree_util.tree_map(lambda v: jnp.clip(v, -0.4, 0.45), params)


def predicate(name):
    return {
        "all": lambda m, n, v: True, "w": lambda m, n, v: n == "w", "second": lambda m, n, v: m == "second", "nothing": lambda m, n, v: False, "ndim": lambda m, n, v: v.ndim > 0,
    }[name]  # fmt: skip


def optimiser(name, lr):
    import optax

    from wax.optim.newton import newton

    return {
        "sgd": lambda: optax.sgd(lr), "momentum": lambda: optax.sgd(lr, momentum=0.7), "adam": lambda: optax.adam(lr), "adamw": lambda: optax.adamw(lr, weight_decay=0.1),
        "rmsprop": lambda: optax.rmsprop(lr, eps=1e-3), "adagrad": lambda: optax.adagrad(lr), "newton": lambda: newton(lr, eps=0.7), "clip": lambda: optax.chain(optax.clip(0.4), optax.sgd(lr)),
        "schedule": lambda: optax.sgd(optax.exponential_decay(lr, 2, 0.5)), "decay": lambda: optax.chain(optax.add_decayed_weights(0.2), optax.sgd(lr)),
    }[name]()  # fmt: skip


class RefNewton:
    """H starts as eps I and gains g g^T; the update is -lr H^-1 g, for every array on its own."""

    def __init__(self, lr, eps):
        self.lr, self.eps = lr, eps

    def init(self, params):
        import jax

        return jax.tree_util.tree_map(lambda v: np.eye(np.size(v)) * self.eps, params)

    def update(self, grads, state, params):
        import jax

        flat = lambda g: np.asarray(g, np.float64).reshape(-1)
        with np.errstate(all="ignore"):
            H = jax.tree_util.tree_map(lambda g, h: h + np.outer(flat(g), flat(g)), grads, state)

            def up(g, h):
                u = np.linalg.solve(h, flat(g)) if np.isfinite(h).all() else np.full(np.size(g), np.nan)
                return np.asarray(-self.lr * u, np.float32).reshape(np.shape(g))

            return jax.tree_util.tree_map(up, grads, H), H


# ------------------------------------------------------------------ the reference: a plain loop


class Ref:
    def __init__(self, sc, c):
        import jax.numpy as jnp

        self.c, self.sc = c, sc
        P = {m: {k: jnp.asarray(v, jnp.float32) for k, v in d.items()} for m, d in initial(c["model"], sc["n"]).items()}
        pick = predicate(c["pred"])
        self.tr = {m: {k: v for k, v in d.items() if pick(m, k, v)} for m, d in P.items()}
        self.nt = {m: {k: v for k, v in d.items() if not pick(m, k, v)} for m, d in P.items()}
        self.tr = {m: d for m, d in self.tr.items() if d}
        self.nt = {m: d for m, d in self.nt.items() if d}
        self.opt = RefNewton(c["lr"], 0.7) if c["opt"] == "newton" else optimiser(c["opt"], c["lr"])
        self.os = self.opt.init(self.tr)
        self.st = initial_state(c["model"], sc["n"])

    def copy(self):
        r = object.__new__(Ref)
        r.__dict__.update(self.__dict__)
        return r

    @staticmethod
    def merge(a, b):
        return {m: {**a.get(m, {}), **b.get(m, {})} for m in sorted({*a, *b})}

    def step(self, x, y):
        import jax
        import jax.numpy as jnp
        import optax

        c, kind, side = self.c, self.sc["kind"], self.sc["side"]
        online = kind in ("online", "onlinefn")

        def f(tr):
            P = self.merge(tr, self.nt)
            pred, st = forward(P, c["model"], x, self.st)
            loss = loss_of(c["loss"], y, pred)
            if online and c["reg"]:
                loss = loss + penalty(tr if side == "h" else P)
            return loss, (pred, st)

        (loss, (pred, st)), g = jax.value_and_grad(f, has_aux=True)(self.tr)
        finite = all(np.isfinite(v).all() for v in jax.tree_util.tree_leaves(g))
        if c["guard"]:
            g = jax.tree_util.tree_map(lambda v: jnp.where(jnp.isfinite(v), v, 0.0), g)
        u, self.os = self.opt.update(g, self.os, self.tr)
        tr = optax.apply_updates(self.tr, u)
        if online and c["proj"]:
            tr = project(tr)
        self.tr, self.st = tr, st
        return jax.device_get({"loss": loss, "pred": pred, "grads": g, "train": tr, "params": self.merge(tr, self.nt)}), finite


# ------------------------------------------------------------------ the learners under test


def guarded(sc, c):
    """Which configurations the kind of learner knows; the others have their defaults."""
    c = dict(c)
    k, side = sc["kind"], sc["side"]
    if side == "h" and k == "osl":
        c["pred"] = "all"
    if k == "simple":
        c["pred"] = "all"
    if side == "f" or k == "online":
        c["guard"] = True
    if k not in ("online", "onlinefn"):
        c["reg"] = c["proj"] = False
    return c


def haiku_model(sc, c):
    import haiku as hk
    import jax.numpy as jnp

    class Leaf(hk.Module):
        def __init__(self, values, name):
            super().__init__(name=name)
            self.values = values

        def __call__(self):
            return {k: hk.get_parameter(k, np.shape(v), init=lambda *_, v=v: jnp.asarray(v, jnp.float32)) for k, v in self.values.items()}

    def model(x):
        P = {m: Leaf(v, m)() for m, v in initial(c["model"], sc["n"]).items()}
        st = initial_state(c["model"], sc["n"])
        if st is not None:
            st = hk.get_state("st", st.shape, st.dtype, init=lambda *_: initial_state(c["model"], sc["n"]))
        y, st = forward(P, c["model"], x, st)
        if st is not None:
            hk.set_state("st", st)
        return y

    return model


def haiku_learner(sc, c):
    """-> function to be called in a transform, which builds the learner and returns how to step it"""
    import haiku as hk

    from wax.modules import OnlineOptimizer, OnlineSupervisedLearner
    from wax.modules.func_optimizer import FuncOptimizer
    from wax.modules.optax_optimizer import OptaxOptimizer

    model = haiku_model(sc, c)
    kind = sc["kind"]
    pred = None if c["pred"] == "all" and c["plainpred"] else predicate(c["pred"])

    def build():
        opt = optimiser(c["opt"], c["lr"])
        if c["wrapped"] or kind == "func":
            opt = OptaxOptimizer(opt)
        if kind == "osl":
            kw = {} if c["guard"] and c["plainpred"] else {"grads_fill_nan_inf": c["guard"]}
            m = OnlineSupervisedLearner(model, opt, lambda y, p: loss_of(c["loss"], y, p), **kw)

            def go(x, y):
                p, info = m(x, y)
                return {"pred": p, "loss": info.loss, "train": info.params}

        elif kind == "func":

            def cost(x, y):
                p = model(x)
                v = loss_of(c["loss"], y, p)
                return (v, p) if c["aux"] else v

            m = FuncOptimizer(cost, opt, has_aux=c["aux"], params_predicate=pred, grads_fill_nan_inf=c["guard"])

            def go(x, y):
                r, params = m(x, y)
                return {"loss": r[0], "pred": r[1], "train": params} if c["aux"] else {"loss": r, "train": params}

        else:

            def cost(x, y):
                p = model(x)
                return loss_of(c["loss"], y, p), p

            kw = {}
            if c["reg"]:
                kw["regularize_loss"] = penalty
            if c["proj"]:
                kw["project_params"] = lambda params, opt: project(params)
            if pred is not None:
                kw["params_predicate"] = pred
            m = OnlineOptimizer(hk.transform_with_state(cost) if c["transformed"] else cost, opt, return_params=c["aux"], **kw)

            def go(x, y):
                r = m(x, y)
                return {"loss": r.loss, "pred": r.model_info, **({"params": r.params} if c["aux"] else {})}

        return go

    return build


def flax_learner(sc, c):
    """-> function that builds the Flax module, and how to read its output"""
    import haiku as hk
    import jax.numpy as jnp
    from flax import linen as nn

    from wax.flax.modules import func_optimizer, online_optimizer, online_supervised_learner
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    kind = sc["kind"]
    values = initial(c["model"], sc["n"])

    class Leaf(nn.Module):
        which: str

        @nn.compact
        def __call__(self):
            return {k: self.param(k, lambda _, v=v: jnp.asarray(v, jnp.float32)) for k, v in values[self.which].items()}

    class Model(nn.Module):
        @nn.compact
        def __call__(self, x):
            P = {m: Leaf(m, name=m)() for m in values}
            st = initial_state(c["model"], sc["n"])
            if st is not None:
                var = self.variable("batch_stats" if c["wrapped"] else "state", "st", lambda: initial_state(c["model"], sc["n"]))
                st = var.value
            y, st = forward(P, c["model"], x, st)
            if st is not None:
                var.value = st
            return y

    class Cost(nn.Module):
        aux: bool = True

        @nn.compact
        def __call__(self, x, y):
            P = {m: Leaf(m, name=m)() for m in values}
            st = initial_state(c["model"], sc["n"])
            if st is not None:
                var = self.variable("batch_stats" if c["wrapped"] else "state", "st", lambda: initial_state(c["model"], sc["n"]))
                st = var.value
            p, st = forward(P, c["model"], x, st)
            if st is not None:
                var.value = st
            v = loss_of(c["loss"], y, p)
            return (v, p) if self.aux else v

    pred = None if c["pred"] == "all" and c["plainpred"] else predicate(c["pred"])

    def build():
        opt = optimiser(c["opt"], c["lr"])
        if c["wrapped"]:
            opt = OptaxOptimizer(opt)
        loss = lambda p, y: loss_of(c["loss"], y, p)
        if kind == "osl":
            return online_supervised_learner.OnlineSupervisedLearner(model=Model(), loss_fn=loss, opt=opt, params_predicate=pred)
        if kind == "simple":
            return online_supervised_learner.SimpleOnlineLearner(model=Model(), loss_fn=loss, opt=opt)
        if kind == "func":
            return func_optimizer.FuncOptimizer(fun=Cost(aux=c["aux"]), opt=opt, has_aux=c["aux"], params_predicate=pred)
        if kind == "onlinefn":
            inner = haiku_model(sc, c)

            def fn(x, y):
                p = inner(x)
                v = loss_of(c["loss"], y, p)
                return (v, p) if c["aux"] else v

            model = fn
        else:
            model = Cost(aux=c["aux"])
        return online_optimizer.OnlineOptimizer(
            model=model, opt=opt, project_params=project if c["proj"] else None,
            regularize_loss=(lambda loss, params, aux: loss + penalty(params)) if c["reg"] else None, params_predicate=pred,
        )  # fmt: skip

    def read(o):
        if kind == "osl":
            p, info = o
            return {"pred": p, "loss": info["loss"], "grads": info["grads"].get("params", {})}
        if kind == "simple":
            return {"pred": o[0], "loss": o[1]}
        if kind == "func":
            r, grads, _ = o
            grads = grads.get("params", {})
            return {"loss": r[0], "pred": r[1], "grads": grads} if c["aux"] else {"loss": r, "grads": grads}
        out = {"loss": o.loss, "grads": o.grads, "params": o.params}
        return {**out, "pred": o.aux} if c["aux"] else out

    return build, read


class Learner:
    """init / apply of all the learners of a run, rebuilt from scratch at every restart."""

    def __init__(self, sc, cfgs):
        self.sc, self.cfgs = sc, cfgs
        self.calls = 2 if sc["twice"] else 1
        self.build()

    def build(self):
        import haiku as hk
        import jax

        sc, calls = self.sc, self.calls
        if sc["side"] == "h":
            builders = [haiku_learner(sc, c) for c in self.cfgs]

            def f(X, Y):
                gos = [b() for b in builders]
                return [[go(X[i], Y[i]) for go in gos] for i in range(calls)]

            self.fun = f
            self.t = hk.transform_with_state(f)
            self.read = lambda o: o
        else:
            from flax import linen as nn

            from wax.flax.core.transform import flax_transform_with_state

            pairs = [flax_learner(sc, c) for c in self.cfgs]
            reads = [r for _, r in pairs]

            class Both(nn.Module):
                @nn.compact
                def __call__(self, X, Y):
                    ms = [b() for b, _ in pairs]
                    return [[m(X[i], Y[i]) for m in ms] for i in range(calls)]

            self.fun = Both
            self.t = flax_transform_with_state(Both())
            self.read = lambda o: [[r(v) for r, v in zip(reads, row)] for row in o]
        self.jit = jax.jit(self.t.apply)

    def unroll(self, p, s, X, Y):
        if self.sc["side"] == "h":
            import jax

            from wax.unroll import unroll

            o, s = unroll(self.t, params=p, state=s, return_final_state=True, rng=jax.random.PRNGKey(1))(X, Y)
        else:
            from wax.flax.core.unroll import flax_unroll_transform

            o, s = flax_unroll_transform(self.fun).apply(p, s, None, X, Y)
        return self.read(o), s


def run(sc, ctx):
    import jax

    jax.config.update("jax_enable_x64", False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        W.armed = None
        ctx.probe(f"{sc['side']}-{sc['kind']}")
        {"optax": run_optax, "scale": run_scale, "arma": run_arma, "snarimax": run_snarimax}.get(sc["kind"], run_learner)(sc, ctx)


TOL = {"rtol": 2e-3, "atol": 3e-5}


def observations(sc, ctx):
    """The delivered observations: (x, y), with their faults."""
    rs = np.random.RandomState(sc["seed"])
    T, n = max(1, sc["T"]), sc["n"]
    X = rs.normal(size=(T, n)).astype(np.float32)
    Y = (X @ np.array([1.0, -0.5, 0.25][:n]) + 0.5 + 0.1 * rs.normal(size=T)).astype(np.float32)
    for b in sc["bad"]:
        v = float(b["v"])
        ctx.fault("bad-" + ("nan" if np.isnan(v) else "inf"))
        ctx.probe("bad-" + ("nan" if np.isnan(v) else "inf"))
        if b["where"] == "x":
            X[b["t"] % T, b["i"] % n] = v
        else:
            Y[b["t"] % T] = v
    if sc["outage"]:
        t, k = sc["outage"]
        X[t : t + k] = np.nan
        Y[t : t + k] = np.nan
        ctx.fault("outage")
        ctx.probe("outage")
    order = []
    for t in range(T):
        if t in sc["lost"] and T - len(sc["lost"]) > 1:
            ctx.fault("lost")
            ctx.probe("lost")
            continue
        order.append(t)
        if t in sc["dup"]:
            order.append(t)
            ctx.fault("repeated")
            ctx.probe("repeated")
    return X[order], Y[order]


def clean(tree):
    """Nested containers as plain dictionaries without empty branches."""
    if hasattr(tree, "items"):
        d = {k: clean(v) for k, v in tree.items()}
        return {k: v for k, v in d.items() if not (isinstance(v, dict) and not v)}
    return np.asarray(tree)


def run_learner(sc, ctx):
    import jax
    import jax.numpy as jnp

    from sim.core import differs
    from sim.data import pickled

    cfgs = [guarded(sc, c) for c in sc["cfgs"]]
    X, Y = observations(sc, ctx)
    T = len(X)
    side, kind = sc["side"], sc["kind"]
    calls = 2 if sc["twice"] else 1
    # with two calls a step, the second one has the observation of the step before
    steps = [([X[t], X[t - 1]][:calls], [Y[t], Y[t - 1]][:calls]) for t in range(T)]
    for c in cfgs:
        for name in {"adamw", "newton"} & {c["opt"]}:
            ctx.probe(name)
        if c["pred"] in ("w", "second", "ndim"):
            ctx.probe("part")
        if c["pred"] == "nothing":
            ctx.probe("untrained")
        if c["model"] in ("norm", "pstate", "count"):
            ctx.probe("stateful")
        if not c["guard"]:
            ctx.probe("unguarded")
    if len(cfgs) > 1:
        ctx.probe("pair")
    if calls > 1:
        ctx.probe("twice")
    where = f"{side}-{kind}"
    ctx.state(where, tuple((c["model"], c["opt"], c["pred"], c["loss"], c["reg"], c["proj"], c["guard"]) for c in cfgs), calls, sc["outage"] is not None, tuple(sorted(b["v"] for b in sc["bad"])), tuple(sc["modes"][: len(sc["cuts"]) + 1]), len(sc["crash"]), tuple(f["at"] for f in sc["fails"]))

    L = Learner(sc, cfgs)
    arr = lambda v: [jnp.asarray(a) for a in v]
    with ctx.guard("learner-raises", where):
        p, s = L.t.init(jax.random.PRNGKey(sc["seed"]), arr(steps[0][0]), arr(steps[0][1]))
        jax.block_until_ready((p, s))

    def advance(refs, X, Y):
        out = []
        for i in range(calls):
            out.append([r.step(jnp.asarray(X[i]), jnp.asarray(Y[i])) for r in refs])
        return out

    starts = [[Ref(sc, c) for c in cfgs]]
    if side == "f":
        seen = [r.copy() for r in starts[0]]
        for r in seen:  # the state of a Flax model has seen the input it was initialised with
            r.st = forward(r.merge(r.tr, r.nt), r.c["model"], jnp.asarray(steps[0][0][0]), r.st)[1]
        starts.append(seen)
        for start in starts[:2]:
            again = [r.copy() for r in start]
            advance(again, *steps[0])
            starts.append(again)

    learned = [False]

    def compare(t, got, want):
        """-> difference, or None"""
        for i in range(calls):
            for j, c in enumerate(cfgs):
                w, finite = want[i][j]
                g = got[i][j]
                if finite and w["train"]:
                    learned[0] = True
                for k in g:
                    d = differs(clean(g[k]), clean(w[k]), **TOL)
                    if d is not None:
                        return k, f"step {t}, call {i}, learner {j} ({c['model']}, {c['opt']}, {c['pred']}): {k} {d}"
                for k in ("train", "params"):
                    if c["guard"] and k in g and not all(np.isfinite(v).all() for v in jax.tree_util.tree_leaves(jax.device_get(g[k]))):
                        return "finite", f"step {t}: a parameter is not finite"
        return None

    cands = starts

    def judge(t, got):
        """Keep the beginnings that explain what was seen; at least one has to."""
        nonlocal cands
        left, why = [], None
        for start in cands:
            rs = [r.copy() for r in start]
            d = compare(t, got, advance(rs, *steps[t]))
            if d is None:
                left.append(rs)
            why = why or d
        if not left:
            ctx.violate(f"wrong-{why[0]}", why[1], where)
        cands = left
        return bool(left)

    bounds = [0] + [c for c in sc["cuts"] if c < T] + [T]
    fails = {}
    for f in sc["fails"]:
        fails.setdefault(f["t"] % T, []).append(f["at"])
    for k in range(len(bounds) - 1):
        a, b = bounds[k], bounds[k + 1]
        mode = sc["modes"][k % len(sc["modes"])]
        crashes = [t for t in range(a, b) if t in sc["crash"]]
        if mode == "unroll" and a in crashes:
            p, s = crash(ctx, L, p, s, pickled)
        if mode == "unroll":
            ctx.probe("unroll")
            stack = lambda q: [jnp.stack([jnp.asarray(steps[t][q][i]) for t in range(a, b)]) for i in range(calls)]
            with ctx.guard("learner-raises", where):
                out, s = L.unroll(p, s, stack(0), stack(1))
                out = jax.device_get(jax.tree_util.tree_map(lambda v: v, out))
            for t in range(a, b):
                if not judge(t, jax.tree_util.tree_map(lambda v: np.asarray(v)[t - a], out)):
                    return
            continue
        for t in range(a, b):
            if t in crashes:
                p, s = crash(ctx, L, p, s, pickled)
            x, y = arr(steps[t][0]), arr(steps[t][1])
            if mode == "step":
                for at in fails.get(t, []):
                    if at in ("reg", "proj") and not all(c[at] for c in cfgs):
                        continue
                    W.armed = at
                    try:
                        L.t.apply(p, s, None, x, y)
                        ctx.violate("swallowed", f"the failure of the {at} did not reach the caller", where)
                    except Boom:
                        ctx.fault("fail-" + at)
                        ctx.probe("fail-" + at)
                    finally:
                        W.armed = None
            else:
                ctx.probe("jit")
            with ctx.guard("learner-raises", where):
                out, s = (L.t.apply if mode == "step" else L.jit)(p, s, None, x, y)
                out = jax.device_get(L.read(out))
            ctx.logv(f"{t}", out)
            if not judge(t, out):
                return
    if learned[0]:
        ctx.probe("learned")
    ctx.nontrivial = T > 1


def crash(ctx, L, p, s, pickled):
    import jax

    ctx.fault("crash")
    ctx.probe("crash")
    p, s = pickled(jax.device_get((p, s)))
    L.build()
    return p, s


# ------------------------------------------------------------------ optimisers, filters


def run_optax(sc, ctx):
    """A bare optimiser over a sequence of gradients."""
    import haiku as hk
    import jax
    import jax.numpy as jnp
    import optax

    from sim.data import pickled

    c = sc["cfgs"][0]
    rs = np.random.RandomState(sc["seed"])
    T = max(2, sc["T"])
    new = lambda: {"a": {"w": jnp.asarray(rs.normal(size=(2, sc["n"])), jnp.float32)}, "b": jnp.asarray(rs.normal(), jnp.float32)}
    params = new()
    grads = [new() for _ in range(T)]
    for b in sc["bad"]:
        g = grads[b["t"] % T]
        g["b"] = jnp.asarray(float(b["v"]), jnp.float32)
        ctx.fault("bad-nan" if b["v"] == "nan" else "bad-inf")
    ctx.state("optax", sc["side"], c["opt"], len(sc["bad"]), tuple(sc["crash"]))
    ref = RefNewton(c["lr"], 0.7) if c["opt"] == "newton" else optimiser(c["opt"], c["lr"])

    def build():
        if sc["side"] == "h":
            from wax.modules.optax_optimizer import OptaxOptimizer

            t = hk.transform_with_state(lambda p, g: OptaxOptimizer(optimiser(c["opt"], c["lr"]))(p, g))
            return t, (lambda o: o)
        from wax.flax.core.transform import flax_transform_with_state
        from wax.flax.modules.optax_optimizer import OptaxOptimizer

        return flax_transform_with_state(OptaxOptimizer(opt=optimiser(c["opt"], c["lr"]))), (lambda o: o[0])

    where = sc["side"] + "-optax"
    t, read = build()
    with ctx.guard("learner-raises", where):
        p, s = t.init(jax.random.PRNGKey(0), params, grads[0])
    cands = [(params, ref.init(params))]
    if sc["side"] == "f":
        cands.append((params, ref.update(grads[0], ref.init(params), params)[1]))
    cur = params
    for i in range(T):
        if i in sc["crash"]:
            ctx.fault("crash")
            p, s = pickled(jax.device_get((p, s)))
            t, read = build()
        with ctx.guard("learner-raises", where):
            o, s = (jax.jit(t.apply) if sc["modes"][0] != "step" else t.apply)(p, s, None, cur, grads[i])
        got = jax.device_get(read(o))
        from sim.core import differs

        left, why = [], None
        for _, st in cands:
            u, st = ref.update(grads[i], st, cur)
            want = optax.apply_updates(cur, u)
            d = differs(got, jax.device_get(want), **TOL)
            if d is None:
                left.append((None, st))
            why = why or d
        if not left:
            ctx.violate("wrong-params", f"{c['opt']}, step {i}: {why}", where)
            return
        cands, cur = left, jax.tree_util.tree_map(jnp.asarray, got)
    ctx.nontrivial = True


def run_scale(sc, ctx):
    """The streaming optimiser learns the scale of a prediction."""
    import jax
    import jax.numpy as jnp
    import optax

    from sim.core import differs
    from sim.data import pickled
    from wax.flax.core.streaming_transforms import streaming_optimizer
    from wax.flax.modules.ewma import EWMA

    c = sc["cfgs"][0]
    if c["opt"] == "newton":
        c = dict(c, opt="sgd")
    X, Y = observations(sc, ctx)
    if not c["aux"]:  # without bad values the scale goes on
        X, Y = np.nan_to_num(X, posinf=1.0, neginf=1.0), np.nan_to_num(Y, posinf=1.0, neginf=1.0)
    X = X[:, 0]
    where = "f-scale"
    ctx.state("scale", c["opt"], c["loss"], c["aux"], len(sc["bad"]), tuple(sc["crash"]))
    loss = lambda p, y: loss_of(c["loss"], y, p)

    def build():
        @streaming_optimizer(optimiser(c["opt"], c["lr"]), loss, has_aux=c["aux"])
        def learner(x, y):
            p = 2.0 * x + EWMA(com=1.0)(jnp.where(jnp.isfinite(x), x, 0.0))
            return (p, {"x": x}) if c["aux"] else p

        return learner

    L = build()
    with ctx.guard("learner-raises", where):
        p, s = L.init(jax.random.PRNGKey(0), jnp.asarray(X[0]), jnp.asarray(Y[0]))
    opt = optimiser(c["opt"], c["lr"])

    def ref_step(st, out, y):
        scale, os = st
        v, g = jax.value_and_grad(lambda k: loss(out * k, y))(scale)
        u, os = opt.update(g, os, scale)
        return v, (optax.apply_updates(scale, u), os)

    one = jnp.array(1.0)
    cands = None
    for t in range(len(X)):
        if t in sc["crash"]:
            ctx.fault("crash")
            ctx.probe("crash")
            p, s = pickled(jax.device_get((p, s)))
            L = build()
        with ctx.guard("learner-raises", where):
            o, s = (L.apply if sc["modes"][0] == "step" else jax.jit(L.apply))(p, s, None, jnp.asarray(X[t]), jnp.asarray(Y[t]))
        v, out = o[0], o[1]
        if c["aux"]:
            ctx.equal(o[2]["x"], X[t], "wrong-aux", f"step {t}", where)
        y = jnp.asarray(Y[t])
        if cands is None:
            first = (one, opt.init(one))
            # the state after the initialisation has seen this observation, with another prediction perhaps
            cands = [first] + [ref_step(first, k * out, y)[1] for k in (1.0,)]
            with ctx.guard("learner-raises", where):
                o0, _ = build().apply(*build().init(jax.random.PRNGKey(0), jnp.asarray(X[0]), y), None, jnp.asarray(X[0]), y)
        left, why = [], None
        for st in cands:
            want, new = ref_step(st, out, y)
            d = differs(v, jax.device_get(want), **TOL)
            if d is None:
                left.append(new)
            why = why or d
        if not left:
            ctx.violate("wrong-loss", f"{c['opt']}, step {t}: {why}", where)
            return
        cands = left
    ctx.nontrivial = len(X) > 1


def series(sc, ctx, lanes=0):
    rs = np.random.RandomState(sc["seed"])
    T = max(2, sc["T"]) + 4
    shape = (T, lanes) if lanes else (T,)
    E = rs.normal(size=shape).astype(np.float32)
    for b in sc["bad"]:
        E[b["t"] % T] = float(b["v"])
        ctx.fault("bad-nan" if b["v"] == "nan" else "bad-inf")
    if sc["outage"]:
        E[sc["outage"][0] : sum(sc["outage"])] = np.nan
        ctx.fault("outage")
    return E


def drive(sc, ctx, build, E, args, where):
    """Outputs of a module over a series, with restarts."""
    import jax

    from sim.data import pickled

    t = build()
    outs = []
    with ctx.guard("learner-raises", where):
        p, s = t.init(jax.random.PRNGKey(3), *args(0))
        jit = jax.jit(t.apply)
        for i in range(len(E)):
            if i in sc["crash"]:
                ctx.fault("crash")
                ctx.probe("crash")
                p, s = pickled(jax.device_get((p, s)))
                t = build()
                jit = jax.jit(t.apply)
            o, s = (t.apply if sc["modes"][i % 4] == "step" else jit)(p, s, None, *args(i))
            outs.append(jax.device_get(o))
    return outs


def fill(v):
    return np.where(np.isfinite(v), v, 0.0)


def run_arma(sc, ctx):
    import haiku as hk
    import jax.numpy as jnp

    rs = np.random.RandomState(sc["seed"] + 1)
    p, q = sc["p"], max(1, sc["q"])
    alpha, beta = (rs.uniform(-0.5, 0.5, size=k).astype(np.float32) for k in (p, q))
    E = series(sc, ctx, sc["lanes"])
    where = sc["side"] + "-arma"
    ctx.state(where, p, q, sc["lanes"], len(sc["bad"]), tuple(sc["crash"]))

    def build():
        if sc["side"] == "h":
            from wax.modules import ARMA

            return hk.transform_with_state(lambda e: ARMA(jnp.asarray(alpha), jnp.asarray(beta))(e))
        from wax.flax.core.transform import flax_transform_with_state
        from wax.flax.modules.arma import ARMA

        return flax_transform_with_state(lambda: ARMA(alpha=jnp.asarray(alpha), beta=jnp.asarray(beta)))

    outs = drive(sc, ctx, build, E, lambda i: (jnp.asarray(E[i]),), where)

    def ref(seq):
        ys, out = [np.zeros(E[0].shape)] * p, []
        es = [np.zeros(E[0].shape)] * q
        with np.errstate(all="ignore"):
            for e in seq:
                y = fill(sum(a * v for a, v in zip(alpha, ys[-p:])) + sum(b * v for b, v in zip(beta, es[-q:])) + e)
                ys.append(y)
                es.append(e)
                out.append(y)
        return out

    wants = [ref(E)]
    if sc["side"] == "f":
        wants.append(ref(np.concatenate([E[:1], E]))[1:])
    from sim.core import differs

    ds = [differs(np.array(outs, np.float32), np.array(w, np.float32), rtol=1e-3, atol=1e-4) for w in wants]
    if all(d is not None for d in ds):
        ctx.violate("wrong-filter", f"alpha {alpha}, beta {beta}: {ds[0]}", where)
    ctx.check(np.isfinite(np.array(outs)).all(), "not-finite", "an output is not finite", where)
    ctx.nontrivial = True


def run_snarimax(sc, ctx):
    import haiku as hk
    import jax.numpy as jnp

    from wax.modules import SNARIMAX

    rs = np.random.RandomState(sc["seed"] + 1)
    p, q, n = sc["p"], sc["q"], sc["exog"]
    w = rs.uniform(-0.4, 0.4, size=(n + p + q)).astype(np.float32)
    E = series(sc, ctx)
    Xs = rs.normal(size=(len(E), n)).astype(np.float32)
    if n and sc["bad"]:
        Xs[sc["bad"][0]["t"], 0] = np.nan
    where = "h-snarimax"
    ctx.state(where, p, q, n, len(sc["bad"]), tuple(sc["crash"]))

    class Reg(hk.Module):
        def __call__(self, x):
            return jnp.sum(hk.get_parameter("w", w.shape, init=lambda *_: jnp.asarray(w)) * x)

    def build():
        return hk.transform_with_state((lambda y, X: SNARIMAX(p, q=q, regressor=Reg())(y, X)[0]) if n else (lambda y: SNARIMAX(p, q=q, regressor=Reg())(y)[0]))

    outs = drive(sc, ctx, build, E, lambda i: (jnp.asarray(E[i]),) + ((jnp.asarray(Xs[i]),) if n else ()), where)
    ys, errs, want = [0.0] * p, [0.0] * q, []
    for i in range(len(E)):
        ys.append(float(E[i]))
        f = np.concatenate([Xs[i], errs[len(errs) - q :], ys[-p:]])
        y = float(np.sum(w * fill(f)))
        errs.append(float(E[i]) - y)
        want.append(y)
    ctx.equal(np.array(outs, np.float32), np.array(want, np.float32), "wrong-forecast", f"p={p} q={q} exogenous={n}", where, rtol=1e-3, atol=1e-4)
    ctx.check(np.isfinite(np.array(outs)).all(), "not-finite", "a forecast is not finite", where)
    ctx.nontrivial = True
