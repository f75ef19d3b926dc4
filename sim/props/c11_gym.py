"""C11 - the agent-environment loop keeps order, stops cleanly and cleans up."""

import warnings

import numpy as np

RUNS = {"quick": 12000, "thorough": 100000}
SEARCH = "nestings of registered, entered and explicit callbacks, failures and stops of agent, environment and callbacks at every step, concurrent and nested loops, reused buffers"
RULE = (
    "One run executes a seeded program - register, unregister, enter a callback, unroll an agent with an environment, also from inside "
    "an agent and in two simulated threads - in which agent, environment and callbacks fail, stop or reuse buffers at seeded steps. The calls "
    "made to all of them equal, in order and values, those of a reference interpreter, as do results, exceptions, "
    "recordings and progress; a final plain unroll shows which callbacks are active. A part of the runs drives Haiku agents, environments and feedback modules. Non-trivial: a step happened."
)
STATE_MEASURE = "distinct traces of calls"
REAL = ["gym_unroll, Agent.unroll", "Callback, Stop, Record, ProgressBar and their activation", "HaikuAgent, HaikuEnv, Flax GymFeedback, Haiku, Flax, JAX (in part of the runs)"]
STUB = ["agents, environments and callbacks (can fail)", "tqdm bars draw nothing", "threads"]
ASSUMPTIONS = ["a Stop or ProgressBar is not used by two runs at the same time (such runs are not judged)", "a recording holds the steps before the one with which the environment ends the episode", "with several threads, callbacks are registered before they start"]
PROBES = ["shared-function", "register", "unregister", "with", "with-twice", "explicit", "nested-run", "run-in-agent", "agent-fails", "env-fails", "reset-fails", "close-fails", "callback-fails", "stop", "record", "progress", "second-run", "reused-buffer", "given-obs", "threads", "change-during-run", "haiku", "generator-fails", "flax", "flax-type-error", "flax-scan", "base-exception", "len"]
SHRINK_LISTS = ["threads", "threads.*", "before", "cbs", "sched.decisions"]
SHRINK_INTS = []

HOOKS = ["start", "act", "step", "end"]
EXCS = ["Boom", "Boom", "StopIteration", "KeyboardInterrupt", "GeneratorExit", "TypeError"]


class Boom(Exception):
    pass


EXC = {"Boom": Boom, "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "GeneratorExit": GeneratorExit, "TypeError": TypeError}
ANY = (Exception, KeyboardInterrupt, GeneratorExit)


def gen(rng, idx, tier):
    from sim.race import schedule

    p = rng.random()
    if p < 0.02:
        T = rng.randrange(1, 6)
        return {"kind": "haiku", "T": T, "seed": rng.randrange(10**6), "fail": rng.choice([None, None, rng.randrange(0, T + 1)]), "stop": rng.choice([None, 1, 2]), "record": rng.random() < 0.7, "noise": rng.random() < 0.5, "passes": rng.choice([1, 2])}
    if p < 0.04:
        return {"kind": "flax", "T": rng.randrange(1, 6), "seed": rng.randrange(10**6), "takes": rng.random() < 0.6, "fail": rng.choice([None, 0, 1, 2]), "exc": rng.choice(["TypeError", "TypeError", "Boom"]), "scan": rng.random() < 0.4, "shape": rng.choice(["same", "scalar", "int"])}
    cbs = []
    for _ in range(rng.randrange(0, 5)):
        kind = rng.choice(["plain"] * 5 + ["tuple", "sub", "stop", "record", "record", "progress"])
        cbs.append({"kind": kind, "hooks": [h for h in HOOKS if rng.random() < 0.7], "fail": {"hook": rng.choice(HOOKS), "k": rng.randrange(0, 5), "exc": rng.choice(EXCS)} if rng.random() < 0.12 else None, "says": {"k": rng.randrange(0, 6), "what": rng.choice(["true", "one", "text", "npbool", "zero", "false"])} if rng.random() < 0.2 else None, "n": rng.randrange(1, 5), "obs": rng.random() < 0.5, "action": rng.random() < 0.5, "share": rng.choice(HOOKS) if rng.random() < 0.3 else None})
    threaded = rng.random() < 0.25

    def run(depth):
        env = {"T": rng.choice([1, 2, 3, 4, 6]), "style": rng.choice(["last", "haiku"]), "fail": None, "reuse": rng.random() < 0.3, "len": rng.random() < 0.5, "npdone": rng.random() < 0.2}
        if rng.random() < 0.2:
            env["fail"] = {"at": rng.choice(["reset", "step", "step", "step", "close"]), "k": rng.randrange(0, 5), "exc": rng.choice(EXCS)}
        agent = {"fail": {"k": rng.randrange(0, 5), "exc": rng.choice(EXCS)} if rng.random() < 0.12 else None, "none": rng.random() < 0.1, "at": None, "body": [], "method": rng.random() < 0.2}
        if depth < 2 and rng.random() < 0.25:
            agent["at"] = rng.randrange(0, 3)
            agent["body"] = stmts(depth + 1, 2)
        ex = None
        if cbs and rng.random() < 0.2:
            ex = rng.sample(range(len(cbs)), rng.randrange(0, len(cbs) + 1))
        return {"op": "run", "env": env, "agent": agent, "explicit": ex, "obs": rng.random() < 0.2}

    def stmts(depth, n):
        out = []
        for _ in range(rng.randrange(1, n + 1)):
            r = rng.random()
            if r < 0.5 or not cbs or threaded:
                out.append(run(depth))
            elif r < 0.65:
                out.append({"op": "register", "cb": rng.randrange(len(cbs))})
            elif r < 0.75:
                out.append({"op": "unregister", "cb": rng.randrange(len(cbs))})
            elif depth < 3:
                out.append({"op": "with", "cb": rng.randrange(len(cbs)), "body": stmts(depth + 1, 3)})
        return out

    if threaded:
        for c in cbs:  # their state is one per run
            c["kind"] = {"stop": "plain", "record": "sub", "progress": "tuple"}.get(c["kind"], c["kind"])
            c["fail"] = c["says"] = None
    before = [{"op": "register", "cb": i} for i in range(len(cbs)) if rng.random() < 0.5] if cbs else []
    rng.shuffle(before)
    return {"kind": "loop", "cbs": cbs, "before": before, "threads": [stmts(0, 4) for _ in range(2 if threaded else 1)], "sched": schedule(rng, opcode=0.3)}


def run(sc, ctx):
    import wax.gym.agent  # not in the simulated threads: imports hold locks
    import wax.gym.gym_unroll
    from wax.gym.callbacks.callbacks import Callback

    if hasattr(Callback, "active"):
        Callback.active = type(Callback.active)()  # what an earlier run of this process left behind
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"loop": run_loop, "haiku": run_haiku, "flax": run_flax}[sc["kind"]](sc, ctx)


def short(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, dict):
        return {k: short(x) for k, x in v.items()}
    return v


class World:
    """Stubs and interpreter of one side: the real loop or the reference."""

    def __init__(self, sc, ctx, real):
        self.sc, self.ctx, self.real = sc, ctx, real
        self.traces = [[] for _ in range(len(sc["threads"]) + 1)]
        self.counts = {}
        self.serial = {}
        self.active = []  # reference side
        self.in_use, self.shared = [], False  # callbacks with a state of one run
        self.records = {}
        self.bars = []
        self.tuples = {}
        self.common = {}
        self.yield_ = lambda: None
        self.cbs = [self.make_cb(i, c) for i, c in enumerate(sc["cbs"])]

    def log(self, th, *e):
        self.traces[th].append(e)

    def hook(self, i, h):
        """The function of callback i for hook h; the first argument is the environment."""
        c = self.sc["cbs"][i] if i != "shared" else {"fail": None, "says": None}

        def fn(env, agent, *args):
            th = env.th
            vals = []
            if h == "start":
                vals = [short(args[0])]
            elif h == "act":
                vals = [short(args[0]), short(args[1])]
            elif h == "step":
                g = args[0]
                vals = [short(g.rw), short(g.obs), short(g.action), bool(g.done), g.info]
            self.log(th, h, i, env.id, agent.id, *vals)
            self.yield_()
            n = self.counts[i, h] = self.counts.get((i, h), -1) + 1
            f = c["fail"]
            if f and f["hook"] == h and f["k"] == n:
                self.seen("callback-fails", f["exc"])
                raise EXC[f["exc"]]("callback")
            if h == "step" and c["says"] and c["says"]["k"] == n:
                return {"true": True, "one": 1, "text": "stop", "npbool": np.bool_(True), "zero": 0, "false": False}[c["says"]["what"]]
            return None

        return fn

    def seen(self, probe, exc=None):
        if self.real:
            self.ctx.probe(probe)
            self.ctx.fault(probe)
            if exc in ("KeyboardInterrupt", "GeneratorExit"):
                self.ctx.probe("base-exception")

    def make_cb(self, i, c):
        fns = {h: self.hook(i, h) for h in c["hooks"]}
        h = c.get("share")
        if h in fns and len(fns) > 1:  # a function that several callbacks use
            fns[h] = self.common.setdefault(h, self.hook("shared", h))
            self.ctx.probe("shared-function")
        if not self.real:
            return {"fns": fns, "c": c, "i": i}
        from wax.gym.callbacks.callbacks import Callback
        from wax.gym.callbacks.progressbar import ProgressBar
        from wax.gym.callbacks.record import Record
        from wax.gym.callbacks.stop import Stop

        k = c["kind"]
        if k == "stop":
            return Stop(c["n"])
        if k == "record":
            return Record(return_obs=c["obs"], return_action=c["action"])
        if k == "progress":
            return ProgressBar()
        if k == "sub":

            class Sub(Callback):
                def __init__(self):
                    pass

            names = {"start": "_on_train_start", "act": "_on_act", "step": "_on_step", "end": "_on_train_end"}
            for h, fn in fns.items():
                setattr(Sub, names[h], lambda s, *a, fn=fn: fn(*a))
            return Sub()
        names = {"start": "on_train_start", "act": "on_act", "step": "on_step", "end": "on_train_end"}
        self.tuples[i] = tuple(fns.get(h) for h in HOOKS)
        return Callback(**{names[h]: fn for h, fn in fns.items()})

    # --- reference callbacks
    def call(self, cb, h, env, agent, *args):
        c, i = cb["c"], cb["i"]
        k = c["kind"]
        if k == "stop":
            if h == "start":
                self.counts["stop", i] = 0
            if h == "step":
                self.counts["stop", i] += 1
                if self.counts["stop", i] >= c["n"]:
                    return True
            return None
        if k == "record":
            if h == "step":
                g = args[0]
                if not g.done and g.action is not None:
                    row = [short(g.rw)] + ([short(g.obs)] if c["obs"] else []) + ([short(g.action)] if c["action"] else [])
                    self.records.setdefault(i, []).append(row)
            return None
        if k == "progress":
            if h == "start":
                self.bars.append({"n": 0, "total": len(env) if env.e["len"] else None, "i": i, "closed": False})
            mine = [b for b in self.bars if b["i"] == i]
            if h == "step":
                mine[-1]["n"] += 1
            if h == "end":
                mine[-1]["closed"] = True
            return None
        if h in cb["fns"]:
            return cb["fns"][h](env, agent, *args)
        return None

    # --- the interpreter
    def exec(self, th, body, taken, depth):
        for s in body:
            op = s["op"]
            if op == "register":
                if depth:
                    self.seen("change-during-run")
                self.seen("register")
                if self.real:
                    self.cbs[s["cb"]].register()
                elif s["cb"] not in self.active:
                    self.active.append(s["cb"])
            elif op == "unregister":
                on = s["cb"] in self.active if not self.real else self.oracle_active.pop(0)
                if not self.real:
                    self.asked.append(on)
                if on:
                    self.seen("unregister")
                    if self.real:
                        self.cbs[s["cb"]].unregister()
                    else:
                        self.active.remove(s["cb"])
            elif op == "with":
                self.seen("with")
                if self.real:
                    cb = self.cbs[s["cb"]]
                    with cb as got:
                        if got is not cb:
                            self.ctx.violate("not-entered", f"entering {type(cb).__name__} gives {got!r}", type(cb).__name__)
                        self.exec(th, s["body"], taken, depth)
                else:
                    self.shared |= s["cb"] in self.in_use
                    added = s["cb"] not in self.active
                    if added:
                        self.active.append(s["cb"])
                    else:
                        self.twice = True
                    try:
                        self.exec(th, s["body"], taken, depth)
                    finally:
                        if added and s["cb"] in self.active:
                            self.active.remove(s["cb"])
            else:
                self.unroll(th, s, taken, depth)

    def unroll(self, th, s, taken, depth):
        n = self.serial[th] = self.serial.get(th, 0) + 1
        env = Env(self, th, f"e{th}.{n}", s["env"])
        agent = Ag(self, th, f"a{th}.{n}", s["agent"], taken, depth)
        obs = np.full(2, 100.0) if s["obs"] else None
        ex = s["explicit"]
        try:
            if self.real:
                if s["obs"]:
                    self.ctx.probe("given-obs")
                if ex is not None:
                    self.ctx.probe("explicit")
                if depth:
                    self.ctx.probe("run-in-agent")
                cbs = None if ex is None else [self.cbs[i] if self.sc["cbs"][i]["kind"] != "tuple" else self.tuples[i] for i in ex]
                if s["agent"]["method"]:
                    from wax.gym.agent import Agent

                    g = Agent.unroll(agent, env, obs=obs, callbacks=cbs)
                else:
                    from wax.gym.gym_unroll import gym_unroll

                    g = gym_unroll(agent, env, obs=obs, callbacks=cbs)
            else:
                g = self.reference(env, agent, obs, ex, taken)
            self.log(th, "result", env.id, short(g.rw), short(g.obs), short(g.action), bool(g.done), g.info)
        except ANY as e:
            self.log(th, "raised", env.id, type(e).__name__, str(e))

    def reference(self, env, agent, obs, ex, taken):
        use = [i for i in self.active if i not in taken] if ex is None else list(ex)
        if ex is None:
            taken = agent.taken = taken + use
        cbs = [self.cbs[i] for i in use]
        inner = [i for i in use if self.sc["cbs"][i]["kind"] in ("stop", "progress")]
        self.shared |= any(i in self.in_use for i in inner)
        self.in_use += inner
        try:
            obs = env.reset() if obs is None else obs
            for cb in cbs:
                self.call(cb, "start", env, agent, obs)
            while True:
                action = agent(obs)
                for cb in cbs:
                    self.call(cb, "act", env, agent, obs, action)
                obs, rw, done, info = env.step(action)
                g = G(rw, obs, action, done, info)
                stop = done
                for cb in cbs:
                    if self.call(cb, "step", env, agent, g):
                        stop = True
                if stop:
                    break
            for cb in cbs:
                self.call(cb, "end", env, agent)
        finally:
            del self.in_use[len(self.in_use) - len(inner) :]
            env.close()
        return g


class G:
    def __init__(self, rw, obs, action, done, info):
        self.rw, self.obs, self.action, self.done, self.info = rw, obs, action, done, info


class Env:
    def __init__(self, w, th, id, e):
        self.w, self.th, self.id, self.e = w, th, id, e
        self.t = 0
        self.buf, self.rbuf = np.zeros(2), np.zeros(())

    def __len__(self):
        if not self.e["len"]:
            raise TypeError("no length")
        self.w.seen("len") if self.w.real else None
        return self.e["T"]

    def make(self, v):
        if self.e["reuse"]:
            if self.w.real:
                self.w.ctx.probe("reused-buffer")
            self.buf[:] = v
            return self.buf
        return np.full(2, float(v))

    def fails(self, at, k):
        f = self.e["fail"]
        if f and f["at"] == at and f["k"] == k:
            self.w.seen({"reset": "reset-fails", "step": "env-fails", "close": "close-fails"}[at], f["exc"])
            raise EXC[f["exc"]](at)

    def reset(self):
        self.w.log(self.th, "reset", self.id)
        self.w.yield_()
        self.fails("reset", self.e["fail"]["k"] if self.e["fail"] else 0)
        return self.make(0)

    def step(self, action):
        self.w.log(self.th, "env", self.id, short(action))
        self.w.yield_()
        self.t += 1
        self.fails("step", self.t - 1)
        done = self.t >= self.e["T"]
        if done and self.e["style"] == "haiku":
            return None, 0, True, {"t": self.t}
        rw = float(self.t) * 10 + (0 if action is None else float(action[0]))
        if self.e["reuse"]:
            self.rbuf[...] = rw
            rw = self.rbuf
        if self.e["npdone"]:
            done = np.bool_(done)
        return self.make(self.t), rw, done, {"t": self.t}

    def close(self):
        self.w.log(self.th, "close", self.id)
        self.fails("close", self.e["fail"]["k"] if self.e["fail"] else 0)


class Ag:
    def __init__(self, w, th, id, a, taken, depth):
        self.w, self.th, self.id, self.a, self.taken, self.depth = w, th, id, a, taken, depth
        self.t = 0
        self.buf = np.zeros(1)

    def __call__(self, obs):
        self.w.log(self.th, "agent", self.id, short(obs))
        self.w.yield_()
        k, self.t = self.t, self.t + 1
        if self.a["fail"] and self.a["fail"]["k"] == k:
            self.w.seen("agent-fails", self.a["fail"]["exc"])
            raise EXC[self.a["fail"]["exc"]]("agent")
        if self.a["at"] == k:
            self.w.seen("nested-run")
            self.w.exec(self.th, self.a["body"], self.taken, self.depth + 1)
        if self.a["none"] and k % 2:
            return None
        self.buf[0] = obs[0] * 2 + 1
        return self.buf.copy() if k % 2 else self.buf


def run_loop(sc, ctx):
    import tqdm.std
    from sim import sched, seams
    from sim.race import Race

    R = Race(ctx, sc, env=seams.Env())
    if len(sc["threads"]) > 1:
        ctx.probe("threads")
    # --- the reference first: it also says which unregistrations are possible
    ref = World(sc, ctx, False)
    ref.asked, ref.twice = [], False
    end = [{"op": "run", "env": {"T": 2, "style": "last", "fail": None, "reuse": False, "len": False, "npdone": False}, "agent": {"fail": None, "none": False, "at": None, "body": [], "method": False}, "explicit": None, "obs": False}]
    last = len(sc["threads"])
    for th, body in [(last, sc["before"])] + list(enumerate(sc["threads"])) + [(last, end)]:
        ref.exec(th, body, [], 0)
    if ref.shared:  # one bar or one stop for two runs at once: nothing is promised
        return
    if ref.twice:
        ctx.probe("with-twice")
    real = World(sc, ctx, True)
    real.oracle_active = list(ref.asked)
    bars = []
    T = tqdm.std.tqdm
    T.monitor_interval = 0  # no thread that watches the bars
    saved = {k: T.__dict__[k] for k in ("__init__", "update", "close")}
    mine, t_init = {}, T.__init__

    def b_init(self, *a, total=None, **k):
        mine[id(self)] = {"n": 0, "total": total, "closed": False, "self": self}
        bars.append(mine[id(self)])
        t_init(self, *a, total=total, **dict(k, disable=True))

    def b_update(self, n=1):
        b = mine.get(id(self))
        if b is not None:
            if b["closed"]:
                ctx.violate("closed-bar", "a progress bar is updated after it was closed", "ProgressBar")
            b["n"] += n

    def b_close(self):
        b = mine.get(id(self))
        if b is not None:
            b["closed"] = True

    T.__init__, T.update, T.close = b_init, b_update, b_close

    def task(th, body):
        def f():
            try:
                real.exec(th, body, [], 0)
            except ANY as e:
                if not isinstance(e, Exception) and not isinstance(e, (KeyboardInterrupt, GeneratorExit)):
                    raise
                ctx.violate("failed", f"outside an unroll: {type(e).__name__}: {e}", type(e).__name__)

        return f

    try:
        real.yield_ = lambda: sched.point() if sched.current() is not None else None
        task(last, sc["before"])()
        ok = R.run([task(th, body) for th, body in enumerate(sc["threads"])])
        if ok:
            task(last, end)()
    finally:
        for k, v in saved.items():
            setattr(T, k, v)
    if not ok:
        return
    ctx.nontrivial = any(e[0] == "env" for tr in real.traces[:-1] for e in tr)
    if sum(e[0] == "result" for tr in real.traces for e in tr) > 2:
        ctx.probe("second-run")
    for th, (got, want) in enumerate(zip(real.traces, ref.traces)):
        for e in got:
            ctx.log(th, e)
        ctx.state(repr(got))
        if got != want:
            k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            a, b = (t[k] if k < len(t) else None for t in (got, want))
            kinds = {x[0] for x in (a, b) if x}
            ctx.violate("other-calls", f"call {k} of {'the end' if th == last else 'thread %d' % th} is {a}, expected {b}; before: {want[max(0, k - 4):k]}", "-".join(sorted(kinds)))
            return
    for i, c in enumerate(sc["cbs"]):
        used = any(x[0] == "env" for tr in real.traces for x in tr)
        if c["kind"] == "stop" and used:
            ctx.probe("stop")
        if c["kind"] == "record" and i in ref.records:
            ctx.probe("record")
            want = ref.records[i]
            with ctx.guard("recording-failed"):
                out = real.cbs[i].get_outputs()
            got = {"reward": np.asarray(out.reward).tolist()}
            exp = {"reward": [r[0] for r in want]}
            if c["obs"]:
                got["obs"], exp["obs"] = np.asarray(out.obs).tolist(), [r[1] for r in want]
            if c["action"]:
                got["action"], exp["action"] = np.asarray(out.action).tolist(), [r[-1] for r in want]
            ctx.check(got == exp, "other-recording", lambda: f"recorded {got}, happened {exp}", "Record")
    if ref.bars:
        ctx.probe("progress")
        ctx.check(sorted((b["n"], b["total"] or 0) for b in bars) == sorted((b["n"], b["total"] or 0) for b in ref.bars), "other-progress", lambda: f"bars {[(b['n'], b['total']) for b in bars]}, expected {[(b['n'], b['total']) for b in ref.bars]}", "ProgressBar")
        ctx.check(all(not b["closed"] or True for b in bars) and sum(b["closed"] for b in bars) >= sum(b["closed"] for b in ref.bars), "bar-open", "a progress bar stays open after its run", "ProgressBar")


def run_haiku(sc, ctx):
    import haiku as hk
    import jax
    import jax.numpy as jnp
    from wax.gym.callbacks.record import Record
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll
    from wax.gym.haiku_agent import HaikuAgent
    from wax.gym.haiku_env import HaikuEnv

    ctx.probe("haiku")
    rs = np.random.RandomState(sc["seed"])
    data = rs.randn(sc["T"] + 1, 2).astype(np.float32)

    def agent_fn(obs):
        w = hk.get_parameter("w", [2], init=hk.initializers.RandomNormal())
        n = hk.get_state("n", [], init=jnp.zeros)
        hk.set_state("n", n + 1)
        a = jnp.sum(w * obs) + 0.1 * n
        return a + (jax.random.normal(hk.next_rng_key()) if sc["noise"] else 0.0)

    def env_fn(action, raw):
        tot = hk.get_state("tot", [], init=jnp.zeros)
        hk.set_state("tot", tot + action)
        return tot * 2 + action, raw + action

    class Source:
        def __init__(self):
            self.i, self.failed = 0, False

        def __iter__(self):
            return self

        def __next__(self):
            if sc["fail"] == self.i and not self.failed:
                self.failed = True
                ctx.fault("generator-fails")
                ctx.probe("generator-fails")
                raise OSError("data source")
            if self.i >= len(data):
                raise StopIteration
            self.i += 1
            return jnp.asarray(data[self.i - 1]), {"i": self.i, "maxlen": len(data)}

    A, E = hk.transform_with_state(agent_fn), hk.transform_with_state(env_fn)
    agent, env = HaikuAgent(A), HaikuEnv(Source(), E)
    rec = Record(return_obs=True, return_action=True)
    stop = Stop(sc["stop"]) if sc["stop"] else None
    got = []
    obs = None
    seen = {}

    for _ in range(sc["passes"]):
        cbs = ([rec] if sc["record"] else []) + ([stop] if stop else [])
        entered = []
        for c in cbs:
            c.__enter__()
            entered.append(c)
        try:
            g = gym_unroll(agent, env, obs=obs)
            got.append(("end", jax.device_get(tuple(g))))
            obs = g.obs
        except OSError as e:
            got.append(("raised", str(e)))
            obs = None
        except StopIteration:
            got.append(("empty",))
            obs = None
        except Exception as e:
            ctx.fail("failed", f"{type(e).__name__}: {e}", "haiku")
        finally:
            for c in reversed(entered):
                c.__exit__(None, None, None)

    # --- reference: the pure functions in a plain loop
    seqA, seqE = hk.PRNGSequence(42), hk.PRNGSequence(42)
    src = Source()
    ap = ep = None
    want, rows, obs = [], [], None
    e_init = False
    info = {}
    for _ in range(sc["passes"]):
        try:
            if obs is None:
                obs, info = next(src)
                e_init = False
            t = 0
            while True:
                if ap is None:
                    ap, as_ = A.init(next(seqA), obs)
                a, as_ = A.apply(ap, as_, next(seqA), obs)
                try:
                    raw, info = next(src)
                except StopIteration:
                    want.append(("end", jax.device_get((0, None, a, True, info))))
                    obs = None
                    break
                if not e_init:
                    ep, es = E.init(next(seqE), a, raw)
                    e_init = True
                (rw, obs), es = E.apply(ep, es, next(seqE), a, raw)
                rows.append((rw, obs, a))
                t += 1
                if sc["stop"] and t >= sc["stop"]:
                    want.append(("end", jax.device_get((rw, obs, a, False, info))))
                    break
        except OSError as e:
            want.append(("raised", str(e)))
            obs = None
        except StopIteration:
            want.append(("empty",))
            obs = None
    ctx.nontrivial = bool(rows)
    ctx.log([w[0] for w in want])
    ctx.state(repr(sc))
    ctx.check([g[0] for g in got] == [w[0] for w in want], "other-result", lambda: f"passes ended {got}, expected {want}", "haiku")
    for g, w in zip(got, want):
        if g[0] == w[0] == "end":
            ctx.equal(g[1], w[1], "other-result", "result of the unroll", "haiku", rtol=1e-5, atol=1e-5)
    if sc["record"] and rows:
        with ctx.guard("recording-failed", "haiku"):
            out = rec.get_outputs()
        w = jax.device_get(rows)
        ctx.equal([np.asarray(out.reward), np.asarray(out.obs), np.asarray(out.action)], [np.stack([r[k] for r in w]) for k in range(3)], "other-recording", "recorded trajectory", "haiku", rtol=1e-5, atol=1e-5)


def run_flax(sc, ctx):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.unroll import flax_unroll_transform
    from wax.flax.modules.gym_feedback import GymFeedback, GymFeedbackLoop

    from sim.zoo_flax import transformed

    ctx.probe("flax")
    rs = np.random.RandomState(sc["seed"])
    obs = jnp.asarray(rs.randn(sc["T"] + 1, 2).astype(np.float32))
    rws = jnp.asarray(rs.randn(sc["T"] + 1).astype(np.float32))
    calls = []
    armed = [None]
    shape = {"same": lambda o: o * 2, "scalar": lambda o: jnp.sum(o), "int": lambda o: (o > 0).astype(jnp.int32)}[sc["shape"]]

    def body(*a):
        calls.append(a)
        if armed[0] is not None:
            e, armed[0] = armed[0], None
            raise e
        return shape(a[0]) + (a[1] > 0 if len(a) > 1 else 0)

    agent = (lambda o, r: body(o, r)) if sc["takes"] else (lambda o: body(o))
    m = GymFeedback(agent=agent)
    tf = transformed(m)
    try:
        p, s = tf.init(jax.random.PRNGKey(0), obs[0], rws[0])
    except Exception as e:
        ctx.fail("failed", f"init: {type(e).__name__}: {e}", "flax")
    want = []
    for t in range(1, sc["T"] + 1):
        n = len(calls)
        fail = sc["fail"] == t - 1
        if fail:
            armed[0] = exc = EXC[sc["exc"]]("the agent's own mistake")
            ctx.fault("agent-fails")
            if sc["exc"] == "TypeError":
                ctx.probe("flax-type-error")
        err = None
        try:
            a, s2 = tf.apply(p, s, None, obs[t], rws[t])
        except Exception as e:
            err = e
        ctx.check(len(calls) == n + 1, "not-once", lambda: f"the agent was called {len(calls) - n} times in one step", "flax")
        if len(calls) > n:
            ctx.check(len(calls[n]) == (2 if sc["takes"] else 1), "other-calls", lambda: f"the agent got {len(calls[n])} arguments", "flax")
        if fail:
            ctx.check(err is exc, "other-result", lambda: f"the agent raised {exc!r}, the caller got {err!r}", "flax")
            continue
        if err is not None:
            ctx.fail("failed", f"{type(err).__name__}: {err}", "flax")
        w = shape(obs[t]) + (rws[t] > 0 if sc["takes"] else 0)
        ctx.equal(jax.device_get(a), jax.device_get(w), "other-result", f"action of step {t}", "flax")
        s = s2
        want.append(w)
    if sc["scan"] and sc["fail"] is None:
        ctx.probe("flax-scan")
        p, s = tf.init(jax.random.PRNGKey(0), obs[0], rws[0])
        with ctx.guard("failed", "flax-scan"):
            ys, _ = flax_unroll_transform(tf).apply(p, s, None, obs[1:], rws[1:])
        ctx.equal(jax.device_get(ys), np.stack([np.asarray(w) for w in want]), "other-result", "actions of the scan", "flax-scan")
    ctx.state(repr(sc))
    ctx.log(len(calls))
