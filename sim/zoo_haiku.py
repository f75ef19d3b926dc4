"""Haiku modules under test, as functions of one step's data {x, y, e, r, n}.

x, y: float arrays of one shape (x may hold NaN), e / r: bool events, n: int.
Each entry: opts (list of option dicts), build(opts) -> function(d), flags.
"""

import haiku as hk
import jax
import jax.numpy as jnp
import optax

import wax.modules as M
from wax.modules.ewmcov import EWMCov
from wax.modules.func_optimizer import FuncOptimizer
from wax.modules.gym_feedback import GymFeedback
from wax.modules.lag import tree_lag
from wax.modules.online_optimizer import OnlineOptimizer
from wax.modules.online_supervised_learner import OnlineSupervisedLearner
from wax.modules.optax_optimizer import OptaxOptimizer
from wax.modules.snarimax import SNARIMAX
from wax.stateful import unroll_lift_with_state, vmap_lift_with_state

nan = float("nan")
ZOO = {}


def entry(name, opts, random=False, single=True, vec=False, smooth=True):
    def deco(build):
        ZOO[name] = dict(name=name, opts=opts, build=build, random=random, single=single, vec=vec, smooth=smooth)
        return build

    return deco


def grid(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


@entry("buffer", grid(maxlen=[1, 3], fill=[None, 0.0]))
def _(o):
    kw = {} if o["fill"] is None else {"fill_value": o["fill"]}
    return lambda d: M.Buffer(o["maxlen"], **kw)(d["x"])


@entry("buffer_state", grid(maxlen=[2]), single=False)
def _(o):
    return lambda d: M.Buffer(o["maxlen"], return_state=True)(d["x"])


@entry("lag", grid(lag=[1, 3]))
def _(o):
    return lambda d: M.Lag(o["lag"])(d["x"])


@entry("tree_lag", grid(lag=[2]), single=False)
def _(o):
    return lambda d: tree_lag(o["lag"])(d["x"], d["y"], None)


@entry("diff", [{}])
def _(o):
    return lambda d: M.Diff()(d["x"])


@entry("pct_change", grid(zero=[True, False]))
def _(o):
    return lambda d: M.PctChange(fillna_zero=o["zero"])(d["x"])


@entry("rolling_mean", grid(horizon=[1, 3], min_periods=[1, 2]))
def _(o):
    return lambda d: M.RollingMean(o["horizon"], min(o["min_periods"], o["horizon"]))(d["x"])


@entry("ewma", grid(adjust=[True, False, "linear"], ignore_na=[False, True], min_periods=[0, 2]))
def _(o):
    return lambda d: M.EWMA(com=3.0, **o)(d["x"])


@entry("ewma_init", grid(adjust=[True, False]), single=False)
def _(o):
    return lambda d: M.EWMA(alpha=0.4, initial_value=0.5, return_info=True, **o)(d["x"])


@entry("ewmvar", grid(adjust=[True, False, "linear"]))
def _(o):
    return lambda d: M.EWMVar(com=3.0, **o)(d["x"])


@entry("ewmcov", grid(adjust=[True, False], assume_centered=[False, True]), vec=True)
def _(o):
    return lambda d: EWMCov(com=3.0, **o)(d["x"], d["y"])


@entry("ffill", [{}])
def _(o):
    return lambda d: M.Ffill()(d["x"])


@entry("counter", [{}])
def _(o):
    return lambda d: M.Counter()()


@entry("has_changed", [{}])
def _(o):
    return lambda d: M.HasChanged()(d["n"])


@entry("ohlc", [{}], single=False)
def _(o):
    return lambda d: M.OHLC()(d["x"], reset_on=d["r"])


@entry("arma", grid(p=[1, 2], q=[1, 3]))
def _(o):
    a = jnp.array([0.3, -0.2][: o["p"]])
    b = jnp.array([0.4, 0.1, -0.3][: o["q"]])
    return lambda d: M.ARMA(a, b)(d["y"].ravel()[0])


@entry("snarimax", grid(p=[1, 2], q=[0, 2]), single=False)
def _(o):
    return lambda d: SNARIMAX(o["p"], q=o["q"])(d["y"].ravel()[:1])


@entry("update_on_event", grid(inner=["ewma", "buffer", "counter", "pair", "stateless"], init=[nan, 0.0]), single=False)
def _(o):
    def f(d):
        mod = INNER[o["inner"]]()
        init = 0.0 if o["inner"] == "counter" else o["init"]
        if o["inner"] == "counter":
            return M.UpdateOnEvent(mod, initial_output_value=init)(d["e"])
        return M.UpdateOnEvent(mod, initial_output_value=init)(d["e"], d["x"])

    return f


class Pair(hk.Module):
    def __call__(self, x):
        return M.EWMA(com=2.0)(x), M.Lag(1)(x)


class Affine(hk.Module):
    def __call__(self, x):
        return 2.0 * x + 1.0


INNER = {
    "ewma": lambda: M.EWMA(com=2.0),
    "buffer": lambda: M.Buffer(2),
    "counter": lambda: M.Counter(),
    "pair": lambda: Pair(),
    "stateless": lambda: Affine(),
}


@entry("chain", [{}])
def _(o):
    def f(d):
        x = M.Ffill()(d["x"])
        return M.EWMA(com=2.0)(M.Diff()(x)) + M.RollingMean(2)(x)

    return f


@entry("fill_nan_inf", [{}])
def _(o):
    return lambda d: M.FillNanInf(0.5)(d["x"] / (d["y"] - d["y"]))


@entry("vmap_lift", grid(inner=["ewma", "buffer", "pair"]), vec=True, single=False)
def _(o):
    return lambda d: vmap_lift_with_state(lambda x: INNER[o["inner"]]()(x))(d["x"])


@entry("unroll_lift", grid(inner=["ewma", "buffer"]), vec=True)
def _(o):
    return lambda d: unroll_lift_with_state(lambda x: INNER[o["inner"]]()(x))(d["x"])


OPTS = {
    "sgd": lambda: optax.sgd(0.1),
    "adam": lambda: optax.adam(0.05),
    "momentum": lambda: optax.sgd(0.05, momentum=0.9),
    "rms": lambda: optax.rmsprop(0.02),
}


def linear_model(x):
    return hk.Linear(1, name="lin")(x)


def sq(y, p):
    return ((y - p) ** 2).mean()


@entry("supervised", grid(opt=["sgd", "adam"]), vec=True, single=False)
def _(o):
    return lambda d: OnlineSupervisedLearner(linear_model, OPTS[o["opt"]](), sq)(d["x"], d["y"][:1])


@entry("online_optimizer", grid(opt=["sgd", "momentum"], part=[False, True]), vec=True, single=False)
def _(o):
    def f(d):
        def model(x, y):
            h = hk.Linear(2, name="lin")(x)
            p = hk.Linear(1, name="fixed")(h)
            m = M.EWMA(com=2.0)(jnp.nan_to_num(y))
            return sq(y, p) + 0.1 * (p - m).mean() ** 2, {"p": p}

        kw = {"params_predicate": lambda m, n, p: "fixed" not in m} if o["part"] else {}
        return tuple(OnlineOptimizer(model, OPTS[o["opt"]](), return_params=True, **kw)(d["x"], d["y"][:1]))

    return f


@entry("func_optimizer", grid(opt=["sgd", "rms"]), vec=True, single=False)
def _(o):
    def f(d):
        def loss(x, y):
            return sq(y, linear_model(x))

        return FuncOptimizer(loss, OptaxOptimizer(OPTS[o["opt"]]()), grads_fill_nan_inf=True)(d["x"], d["y"][:1])

    return f


@entry("gym_feedback", [{}], vec=True, single=False)
def _(o):
    def f(d):
        def agent(obs):
            w = M.EWMA(com=2.0, initial_value=0.0)(jnp.nan_to_num(obs))
            return w, {"w": w}

        def env(action, raw):
            obs = jnp.nan_to_num(M.Lag(1, fill_value=0.0)(raw))
            return (action * raw).sum(), obs, {"obs": obs}

        out, info = GymFeedback(agent, env, return_obs=True, return_action=True)(d["y"])
        return tuple(out), tuple(info)

    return f


@entry("noise", [{}], random=True)
def _(o):
    return lambda d: M.EWMA(com=2.0)(d["y"] + jax.random.normal(hk.next_rng_key(), d["y"].shape))


def pick(rng, names=None):
    name = rng.choice(sorted(names or ZOO))
    return name, rng.randrange(len(ZOO[name]["opts"]))


def n_configs():
    return sum(len(e["opts"]) for e in ZOO.values())
