"""One streaming session of a module, with crashes: what the streaming checks drive."""

import jax
import jax.numpy as jnp
import numpy as np

from .data import pickled

tmap = jax.tree_util.tree_map


def transformed(lib, build):
    """build() gives a function of the step's inputs (Haiku) or a module (Flax)."""
    if lib == "hk":
        import haiku as hk

        return hk.transform_with_state(build())
    from .zoo_flax import transformed as t

    return t(build())


def stack(steps):
    return tmap(lambda *a: jnp.stack([jnp.asarray(v) for v in a]), *steps)


def scan(lib, tf, p, s, rng, args):
    if lib == "hk":
        from wax.unroll import unroll_transform_with_state

        return unroll_transform_with_state(tf).apply(p, s, rng, *args)
    from wax.flax.core.unroll import flax_unroll_transform

    return flax_unroll_transform(tf).apply(p, s, rng, *args)


def drive(ctx, lib, build, steps, crash=(), mode="step", jit=True, params=None, state=None, on_state=None):
    """Deliver `steps` (a list of argument tuples) to a module.

    Returns (first, outputs, params, state): outputs[i] belongs to steps[first + i]
    (Flax initialisation consumes the first step). At the crash points everything
    but the bytes of parameters and state is lost. mode: step, scan or mixed.
    """
    tf = transformed(lib, build)
    T = len(steps)
    first = 0
    if params is None:
        params, state = tf.init(jax.random.PRNGKey(0), *[tmap(jnp.asarray, a) for a in steps[0]])
        first = 1 if lib == "flax" else 0
    step = jax.jit(tf.apply) if jit else tf.apply
    cuts = sorted(set(c for c in crash if first < c < T) | {T})
    outs, t = [], first
    for k, stop in enumerate(cuts):
        if stop > t:
            if mode == "scan" or (mode == "mixed" and k % 2 == 0):
                ys, state = scan(lib, tf, params, state, None, stack(steps[t:stop]))
                ys = jax.device_get(ys)
                outs += [tmap(lambda a: np.asarray(a)[i], ys) for i in range(stop - t)]
            else:
                for i in range(t, stop):
                    y, state = step(params, state, None, *[tmap(jnp.asarray, a) for a in steps[i]])
                    outs.append(jax.device_get(y))
                    if on_state is not None:
                        on_state(i, state)
        t = stop
        if stop < T:
            ctx.fault("crash")
            params, state = pickled(params), pickled(state)
            tf = transformed(lib, build)
            step = jax.jit(tf.apply) if jit else tf.apply
    return first, outs, params, state
