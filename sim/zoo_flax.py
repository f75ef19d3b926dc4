"""Flax modules under test, as modules applied to one step's data {x, y, e, r, n}.

Each entry: opts, build(opts) -> nn.Module, args(d, opts) -> positional arguments.
trace: works under jit / scan; vec: needs a vector input; random: draws keys.
"""

import flax.linen as nn
import jax
import jax.numpy as jnp
import optax

import wax.flax.modules as M
from wax.flax.core.streaming_transforms import streaming_optimizer, streaming_transform_with_state, update_on_event
from wax.flax.modules.apply_mask import ApplyMask
from wax.flax.modules.arma import ARMA
from wax.flax.modules.compressed_buffer import CompressedBuffer, HierarchicalBuffer
from wax.flax.modules.ewmcov import EWMCov
from wax.flax.modules.ewmvar import EWMVar
from wax.flax.modules.func_optimizer import FuncOptimizer
from wax.flax.modules.gym_feedback import GymFeedback, GymFeedbackLoop
from wax.flax.modules.has_changed import HasChanged
from wax.flax.modules.mask_mean import MaskMean
from wax.flax.modules.mask_normalize import MaskNormalize
from wax.flax.modules.mask_std import MaskStd
from wax.flax.modules.ohlc import OHLC
from wax.flax.modules.online_optimizer import OnlineOptimizer
from wax.flax.modules.snarimax import SNARIMAX

nan = float("nan")
ZOO = {}


def X(d, o):
    return (d["x"],)


def Y(d, o):
    return (d["y"],)


def entry(name, opts, args=X, trace=True, vec=False, random=False):
    def deco(build):
        ZOO[name] = dict(name=name, opts=opts, build=build, args=args, trace=trace, vec=vec, random=random)
        return build

    return deco


def grid(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


class Fn(nn.Module):
    """A user's function of one step as a module."""

    fn: object

    @nn.compact
    def __call__(self, *a):
        return self.fn(*a)


@entry("buffer", grid(maxlen=[1, 3], fill=[None, 0.0]))
def _(o):
    return M.Buffer(o["maxlen"], **({} if o["fill"] is None else {"fill_value": o["fill"]}))


@entry("buffer_state", grid(maxlen=[2, 4]))
def _(o):
    return M.Buffer(o["maxlen"], return_state=True)


@entry("lag", grid(lag=[1, 3]))
def _(o):
    return M.Lag(o["lag"])


@entry("lag_state", grid(lag=[2]))
def _(o):
    return M.Lag(o["lag"], return_state=True)


@entry("diff", [{}])
def _(o):
    return M.Diff()


@entry("pct_change", grid(zero=[True, False], fill=["pad", "none"]))
def _(o):
    return M.PctChange(fillna_zero=o["zero"], fill_method=o["fill"])


@entry("rolling_mean", grid(horizon=[1, 3], min_periods=[1, 2]))
def _(o):
    return M.RollingMean(o["horizon"], min(o["min_periods"], o["horizon"]))


@entry("ewma", grid(adjust=[True, False, "linear"], ignore_na=[False, True], min_periods=[0, 2]))
def _(o):
    return M.EWMA(com=3.0, **o)


@entry("ewma_init", grid(adjust=[True, False]))
def _(o):
    return M.EWMA(alpha=0.4, initial_value=0.5, return_info=True, **o)


@entry("ewmvar", grid(adjust=[True, False, "linear"]))
def _(o):
    return EWMVar(com=3.0, **o)


@entry("ewmcov", grid(adjust=[True, False], assume_centered=[False, True]), args=lambda d, o: (d["x"], d["y"]), vec=True)
def _(o):
    return EWMCov(com=3.0, **o)


@entry("ffill", [{}])
def _(o):
    return M.Ffill()


@entry("counter", [{}], args=lambda d, o: ())
def _(o):
    return M.Counter()


@entry("has_changed", [{}], args=lambda d, o: (d["n"],))
def _(o):
    return HasChanged()


@entry("ohlc", [{}], args=lambda d, o: (d["x"], d["r"]))
def _(o):
    return OHLC()


@entry("arma", grid(p=[0, 1, 2], q=[0, 1, 3]), args=lambda d, o: (d["y"].ravel()[0],))
def _(o):
    return ARMA(alpha=jnp.array([0.3, -0.2][: o["p"]]), beta=jnp.array([0.4, 0.1, -0.3][: o["q"]]))


@entry("snarimax", grid(p=[1, 3], q=[0, 2]), args=lambda d, o: (d["y"].ravel()[:1], d["y"].ravel()[:1] * 2))
def _(o):
    return SNARIMAX(lags_x=o["p"], lags_y=o["q"])


class Policy(nn.Module):
    @nn.compact
    def __call__(self, obs):
        return M.EWMA(com=2.0)(obs) - M.Lag(1, fill_value=0.0)(obs)


@entry("gym_feedback", grid(loop=[False, True]), args=Y)
def _(o):
    return (GymFeedbackLoop if o["loop"] else GymFeedback)(agent=Policy())


@entry("chain", [{}])
def _(o):
    def f(x):
        x = M.Ffill()(x)
        return M.EWMA(com=2.0)(M.Diff()(x)) + M.RollingMean(2)(x)

    return Fn(f)


@entry("gated", grid(inner=["ewma", "lag", "rolling"], init=[nan, 0.0]), args=lambda d, o: (d["x"], d["e"]))
def _(o):
    inner = {"ewma": lambda: M.EWMA(com=2.0), "lag": lambda: M.Lag(1), "rolling": lambda: M.RollingMean(2)}[o["inner"]]
    return Fn(update_on_event(event_fn=lambda x, e: e, initial_output_value=o["init"])(lambda x, e: inner()(x)))


@entry("masks", [{}], args=lambda d, o: (d["y"] > 0, d["x"]), vec=True)
def _(o):
    def f(m, x):
        return ApplyMask()(m, x), MaskMean()(m, x), MaskStd()(m, x), MaskNormalize()(m, M.Ffill()(x))

    return Fn(f)


OPTS = {
    "sgd": lambda: optax.sgd(0.004),
    "adam": lambda: optax.adam(0.05),
    "momentum": lambda: optax.sgd(0.002, momentum=0.9),
    "rms": lambda: optax.rmsprop(0.02),
}


class Loss(nn.Module):
    """Loss of a linear model on one observation."""

    @nn.compact
    def __call__(self, x, y):
        h = nn.Dense(2, name="lin")(x)
        p = nn.Dense(1, name="fixed")(h)
        return ((p - y) ** 2).mean(), {"p": p}


class LossOnly(nn.Module):
    @nn.compact
    def __call__(self, x, y):
        return ((nn.Dense(1, name="lin")(x) - y) ** 2).mean()


XY = lambda d, o: (d["x"], d["y"][:1])  # noqa: E731


@entry("online_optimizer", grid(opt=["sgd", "adam"], part=[False, True]), args=XY, vec=True)
def _(o):
    kw = {"params_predicate": lambda m, n, p: "fixed" not in m} if o["part"] else {}

    def f(x, y):
        i = OnlineOptimizer(model=Loss(), opt=OPTS[o["opt"]](), **kw)(x, y)
        return i.loss, i.aux, i.grads, i.params

    return Fn(f)


@entry("func_optimizer", grid(opt=["momentum", "rms"]), args=XY, vec=True)
def _(o):
    return FuncOptimizer(fun=LossOnly(), opt=OPTS[o["opt"]]())


@entry("streaming_optimizer", grid(opt=["sgd", "adam"]), args=XY, vec=True)
def _(o):
    st = streaming_optimizer(OPTS[o["opt"]](), lambda p, y: ((p - y) ** 2).mean())(lambda x, y: M.EWMA(com=2.0)(jnp.nan_to_num(x)))
    return st


@entry("stream_fn", grid(inner=["ewma", "pair"]))
def _(o):
    def f(x):
        y = M.EWMA(com=2.0)(x)
        return (y, M.Buffer(2)(x)) if o["inner"] == "pair" else y

    return streaming_transform_with_state(f)


@entry("compressed", grid(c=["ewma", "quantile", "downsample", "none"], maxlen=[5, 8]), args=lambda d, o: (d["y"].ravel()[0],), trace=False)
def _(o):
    return CompressedBuffer(maxlen=o["maxlen"], compression=o["c"])


@entry("hierarchical", grid(m=["ewma", "downsample"], l=["quantile", "none"]), args=lambda d, o: (d["y"].ravel()[0],), trace=False)
def _(o):
    return HierarchicalBuffer(recent_maxlen=3, medium_maxlen=6, long_maxlen=12, medium_compression=o["m"], long_compression=o["l"])


class Noise(nn.Module):
    @nn.compact
    def __call__(self, x):
        return M.EWMA(com=2.0)(x) * 0 + jax.random.normal(self.make_rng("default"), x.shape)


@entry("noise", [{}], args=Y, random=True)
def _(o):
    return Noise()


@entry("wrapped", grid(inner=["ewma", "lag", "pair"]))
def _(o):
    from wax.flax.core.state_utils import StreamingModuleWrapper

    inner = {"ewma": lambda: M.EWMA(com=2.0), "lag": lambda: M.Lag(2), "pair": lambda: Fn(lambda x: (M.EWMA(com=2.0)(x), M.Buffer(2)(x)))}[o["inner"]]()
    return StreamingModuleWrapper(wrapped_module=inner)


def factories():
    """The factory functions of the modules, by entry."""
    from wax.flax.core.state_utils import create_streaming_module_wrapper  # noqa: F401
    from wax.flax.modules import arma, buffer, counter, diff, ewma, ewmcov, ewmvar, ffill, func_optimizer, gym_feedback, has_changed, lag, ohlc, pct_change, rolling_mean, snarimax

    fill = lambda o: {} if o["fill"] is None else {"fill_value": o["fill"]}  # noqa: E731
    return {
        "buffer": lambda o: buffer.create_buffer(o["maxlen"], **fill(o)),
        "buffer_state": lambda o: buffer.create_buffer(o["maxlen"], return_state=True),
        "lag": lambda o: lag.create_lag(o["lag"]),
        "lag_state": lambda o: lag.create_lag(o["lag"], return_state=True),
        "diff": lambda o: diff.create_diff(),
        "pct_change": lambda o: pct_change.create_pct_change(fillna_zero=o["zero"], fill_method=o["fill"]),
        "rolling_mean": lambda o: rolling_mean.create_rolling_mean(o["horizon"], min(o["min_periods"], o["horizon"])),
        "ewma": lambda o: ewma.create_ewma(com=3.0, **o),
        "ewma_init": lambda o: ewma.create_ewma(alpha=0.4, initial_value=0.5, return_info=True, **o),
        "ewmvar": lambda o: ewmvar.create_ewmvar(com=3.0, **o),
        "ewmcov": lambda o: ewmcov.create_ewmcov(com=3.0, **o),
        "ffill": lambda o: ffill.create_ffill(),
        "counter": lambda o: counter.create_counter(),
        "has_changed": lambda o: has_changed.create_has_changed(),
        "ohlc": lambda o: ohlc.create_ohlc(),
        "arma": lambda o: arma.create_arma(jnp.array([0.3, -0.2][: o["p"]]), jnp.array([0.4, 0.1, -0.3][: o["q"]])),
        "snarimax": lambda o: snarimax.create_snarimax(o["p"], o["q"]),
        "gym_feedback": lambda o: (gym_feedback.create_gym_feedback_loop if o["loop"] else gym_feedback.create_gym_feedback)(Policy()),
        "func_optimizer": lambda o: func_optimizer.create_func_optimizer(LossOnly(), OPTS[o["opt"]]()),
    }


def transformed(m):
    """(init, apply) of a module, or of a ready StreamingTransform."""
    from wax.flax.core.transform import FlaxTransformed, flax_transform_with_state

    if hasattr(m, "scan") and not isinstance(m, nn.Module):
        return FlaxTransformed(m.init, m.apply)
    return flax_transform_with_state(m)


def pick(rng, names=None):
    name = rng.choice(sorted(names or ZOO))
    return name, rng.randrange(len(ZOO[name]["opts"]))
