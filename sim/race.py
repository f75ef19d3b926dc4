"""Threads of one run under the seeded scheduler, with a recorded history."""

import hashlib

from . import core, sched, seams


def schedule(rng, opcode=0.4):
    """How a run explores: preemption probability and where tasks can be preempted."""
    return {
        "seed": rng.randrange(10**9),
        "p": rng.choice([0.01, 0.05, 0.1, 0.2, 0.4, 0.7]),
        "grain": "opcode" if rng.random() < opcode else "line",
        "hot": rng.choice([None, None, 0.02, 0.06, 0.2]),
    }


class Race:
    def __init__(self, ctx, sc, step_cap=120_000, env=None):
        self.ctx, self.sc = ctx, sc
        self.env = env or seams.Env()
        seams.set_env(self.env)
        conf = sc["sched"]
        rng = core.rng_for("sched", conf["seed"])
        self.policy = sched.Policy(rng, conf["p"], conf.get("decisions"), conf.get("hot"))
        self.s = sched.Scheduler(self.policy, self.env, conf["grain"], step_cap)
        self.hist = []
        self._t = 0

    def now(self):
        self._t += 1
        return self._t

    def mono(self):
        return self.env.clock.mono

    def op(self, kind, fn, **info):
        """Call fn, recording its interval, result or exception. Never raises Exception."""
        o = {"kind": kind, **info, "inv": self.now(), "t0": self.mono(), "ret": None, "res": None, "exc": None}
        self.hist.append(o)
        sched.point()
        try:
            o["res"] = fn()
        except Exception as e:
            o["exc"] = e
        o["t1"] = self.mono()
        o["ret"] = self.now()
        return o

    def sleep(self, d):
        """Simulated work of length d (other tasks may run)."""
        cur = sched.current()
        if cur is not None:
            cur.sleep(d)
        else:
            self.env.clock.advance(d)

    def run(self, tasks, daemon=()):
        """tasks: callables. Judges deadlocks and lack of progress. True when it ended."""
        ctx = self.ctx
        for i, fn in enumerate(tasks):
            self.s.spawn(fn, name=f"t{i}", daemon=i in daemon)
        ok = True
        try:
            self.s.run()
        except sched.Deadlock as e:
            ok = False
            ctx.violate("deadlock", f"all threads wait for ever: {e}")
        except sched.StepCap as e:
            ok = False
            ctx.violate("no-progress", f"threads make no progress: {e}")
        ctx.scenario_out = dict(self.sc, sched=dict(self.sc["sched"], decisions=self.policy.record if self.policy.replay is None else self.sc["sched"]["decisions"]))
        ctx.sim_time += self.env.clock.mono
        for site in self.s.sites:
            ctx.state("preempted", *site)
        ctx.state("order", hashlib.sha256(repr([(o["kind"], o["inv"], o["ret"]) for o in self.hist]).encode()).hexdigest())
        ctx.fault("preemption", self.s.switches)
        if self.env.clock.jumps:
            ctx.fault("clock-jump", self.env.clock.jumps)
        ctx.log("steps", self.s.step, "switches", self.s.switches, "mono", round(self.env.clock.mono, 6))
        for t in self.s.tasks:
            if t.exc is not None:
                e = t.exc
                if isinstance(e, core.StopRun):
                    continue
                if isinstance(e, Exception) and core.in_wax(e):
                    ctx.violate("thread-died", f"{t.name}: {type(e).__name__}: {e}\n{core.short_tb(e)}", type(e).__name__)
                    ok = False
                else:
                    raise e
        return ok

    def log_history(self, show=lambda o: o["res"]):
        for o in sorted(self.hist, key=lambda o: o["inv"]):
            self.ctx.log(o["kind"], o["inv"], o["ret"], type(o["exc"]).__name__ if o["exc"] else "", show(o))
