"""Run context, comparison helpers and scenario utilities shared by all checks."""

import contextlib
import copy
import hashlib
import json
import math
import random
import traceback

import numpy as np

REPO_WAX = "/repo/src/wax"


class SimHang(BaseException):
    """The wall-clock watchdog of one run fired."""


class StopRun(Exception):
    """Stop this run early: a violation has been recorded."""


def rng_for(*labels):
    h = hashlib.sha256("|".join(map(str, labels)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Ctx:
    """What one simulated run records."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.h = hashlib.sha256()
        self.log_lines = []
        self.keep_log = False
        self.n_log = 0
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.states = set()
        self.nontrivial = True

    # --- recording
    def log(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.h.update(s.encode())
        self.h.update(b"\n")
        self.n_log += 1
        if self.keep_log:
            self.log_lines.append(s)

    def logv(self, label, value):
        """Log a value by a digest of its leaves (rounded, so it is stable to print)."""
        self.log(label, digest(value))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])

    # --- verdicts
    def violate(self, kind, message, where=""):
        sig = f"{self.prop}:{kind}" + (f":{where}" if where else "")
        if all(v["signature"] != sig for v in self.violations):
            self.violations.append({"kind": kind, "signature": sig, "message": str(message)[:1500]})
        self.log("VIOLATION", sig)

    def fail(self, kind, message, where=""):
        self.violate(kind, message, where)
        raise StopRun

    def check(self, cond, kind, message, where=""):
        if not cond:
            self.violate(kind, message() if callable(message) else message, where)
        return bool(cond)

    @contextlib.contextmanager
    def guard(self, kind, where=""):
        """An exception inside is a violation: the code under test must not fail here."""
        try:
            yield
        except (StopRun, SimHang):
            raise
        except Exception as e:
            self.fail(kind, f"{type(e).__name__}: {e}\n{short_tb(e)}", where)

    def equal(self, got, want, kind, what, where="", rtol=None, atol=None):
        d = differs(got, want, rtol, atol)
        if d is not None:
            self.violate(kind, f"{what}: {d}", where)
        return d is None


def short_tb(e, n=6):
    return "".join(traceback.format_tb(e.__traceback__)[-n:])


def in_wax(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_WAX):
            return True
        tb = tb.tb_next
    return False


# ---------------------------------------------------------------- comparisons


def leaves(x, path=""):
    """Leaves of nested python / jax containers, in a fixed order, with paths."""
    if x is None:
        yield path, None
    elif hasattr(x, "_fields"):
        for f in x._fields:
            yield from leaves(getattr(x, f), f"{path}.{f}")
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, f"{path}[{i}]")
    elif hasattr(x, "items") and hasattr(x, "keys") and not hasattr(x, "dims"):
        for k in sorted(x.keys(), key=str):
            yield from leaves(x[k], f"{path}/{k}")
    elif hasattr(x, "__dataclass_fields__"):
        for f in x.__dataclass_fields__:
            yield from leaves(getattr(x, f), f"{path}.{f}")
    else:
        yield path, x


def to_np(x):
    if x is None:
        return None
    try:
        import jax

        if isinstance(x, jax.Array) and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
            return np.asarray(jax.random.key_data(x))
    except Exception:
        pass
    return np.asarray(x)


def differs(got, want, rtol=None, atol=None):
    """None when equal up to tolerance (NaN equal to NaN), else a short description."""
    try:
        g, w = list(leaves(got)), list(leaves(want))
    except Exception as e:
        return f"result cannot be read: {type(e).__name__}: {e}"
    if len(g) != len(w):
        return f"structure differs: {len(g)} leaves {[p for p, _ in g][:8]} instead of {len(w)} {[p for p, _ in w][:8]}"
    for (pg, a), (pw, b) in zip(g, w):
        d = leaf_differs(a, b, rtol, atol)
        if d is not None:
            return f"at {pw or 'value'}: {d}"
    return None


def leaf_differs(a, b, rtol=None, atol=None):
    if a is None or b is None:
        return None if a is b else f"{show(a)} instead of {show(b)}"
    if isinstance(b, str) or isinstance(a, str):
        return None if a == b else f"{show(a)} instead of {show(b)}"
    try:
        a, b = to_np(a), to_np(b)
    except Exception as e:
        return f"not an array: {type(e).__name__}: {e}"
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if a.dtype == object or b.dtype == object or a.dtype.kind in "MmUS" or b.dtype.kind in "MmUS":
        same = np.array_equal(a, b) or (a.dtype.kind == b.dtype.kind == "M" and bool(((a == b) | (np.isnat(a) & np.isnat(b))).all()))
        return None if same else f"{show(a)} instead of {show(b)}"
    kinds = {a.dtype.kind, b.dtype.kind}
    if not kinds & {"f", "c"}:
        return None if np.array_equal(a, b) else f"{show(a)} instead of {show(b)}"
    if rtol is None:
        f32 = any(x.dtype in (np.float32, np.float16) for x in (a, b))
        rtol, atol = (2e-4, 1e-5 if atol is None else atol) if f32 else (1e-8, 1e-10 if atol is None else atol)
    if atol is None:
        atol = rtol
    try:
        x, y = a.astype(np.float64), b.astype(np.float64)
    except Exception as e:
        return f"not numeric: {e}"
    with np.errstate(all="ignore"):
        ok = np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
    if ok.all():
        return None
    bad = np.argwhere(~ok)
    i = tuple(bad[0])
    return f"index {tuple(int(j) for j in i)}: {x[i]!r} instead of {y[i]!r} ({len(bad)} of {ok.size} elements)"


def show(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def digest(value):
    """Stable digest of a value: floats to 6 significant digits, no addresses."""
    h = hashlib.sha256()
    for p, v in leaves(value):
        h.update(p.encode())
        if v is None or isinstance(v, (str, bool, int)):
            h.update(repr(v).encode())
            continue
        try:
            a = to_np(v)
        except Exception:
            h.update(type(v).__name__.encode())
            continue
        if a.dtype.kind == "f":
            a = np.array([_round(float(t)) for t in a.ravel()])
            h.update(a.tobytes())
        elif a.dtype == object:
            h.update(type(v).__name__.encode())
        else:
            h.update(a.tobytes())
    return h.hexdigest()[:12]


def _round(t):
    if t != t or math.isinf(t) or t == 0:
        return t
    return float(f"{t:.5e}")


# ---------------------------------------------------------------- scenarios


def jcopy(s):
    return json.loads(json.dumps(s))


def get_path(s, path):
    out = s
    for k in path:
        out = out[k]
    return out


def set_path(s, path, value):
    s = copy.deepcopy(s)
    t = s
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = value
    return s


def expand(s, pattern):
    """Paths of `s` matching a dotted pattern such as 'streams.*.events'."""
    paths = [()]
    for part in pattern.split("."):
        nxt = []
        for p in paths:
            try:
                cur = get_path(s, p)
            except (KeyError, IndexError, TypeError):
                continue
            if part == "*":
                keys = range(len(cur)) if isinstance(cur, list) else sorted(cur) if isinstance(cur, dict) else []
                nxt += [p + (k,) for k in keys]
            elif isinstance(cur, dict) and part in cur:
                nxt.append(p + (part,))
        paths = nxt
    return paths


def shrink(scenario, still_fails, lists, ints, budget):
    """Greedy minimisation. budget(): True while there is time and tries left."""
    cur = scenario
    changed = True
    while changed and budget():
        changed = False
        for pat in lists:
            for path in expand(cur, pat):
                try:
                    seq = get_path(cur, path)
                except (KeyError, IndexError):
                    continue
                if not isinstance(seq, list):
                    continue
                n = max(len(seq) // 2, 1)
                while n >= 1 and len(seq) > 0:
                    i, hit = 0, False
                    while i < len(seq):
                        if not budget():
                            return cur
                        cand = set_path(cur, path, seq[:i] + seq[i + n :])
                        if still_fails(cand):
                            cur, seq = cand, get_path(cand, path)
                            changed = hit = True
                        else:
                            i += n
                    if n == 1 and not hit:
                        break
                    n = max(n // 2, 1) if n > 1 else 1 if hit else 0
        for pat, low in ints:
            for path in expand(cur, pat):
                v = get_path(cur, path)
                if isinstance(v, bool) or not isinstance(v, int) or v <= low:
                    continue
                for t in (low, (v + low) // 2, v - 1):
                    if t >= v or not budget():
                        continue
                    cand = set_path(cur, path, t)
                    if still_fails(cand):
                        cur, changed = cand, True
                        break
    return cur
