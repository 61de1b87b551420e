"""Runs one scenario execution; searches, replays and minimises."""
import gc
import hashlib
import importlib
import json
import random
import sys
import time

from . import core, faults, world

real_perf = time.perf_counter


def derive(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


NEUTRAL = ("gc", "stall", "clock_jump", "clock_step", "loop_lag")  # faults that make nothing fail


class Outcome:
    __slots__ = ("status", "kind", "message", "steps", "switches", "sim_time", "digest", "sig", "stats", "decisions",
                 "trace", "history_len", "style")


class Engine:
    def __init__(self, prop):
        world.install()
        self.prop = prop
        cls = importlib.import_module(f"scenarios.{prop.lower()}").Scenario
        if not cls.scheduled:
            world.loops_only()
        self.mods = world.import_repo()
        self.scn = cls(self.mods)
        self.expected = 300.0
        self.runs = 0
        self.plan = self.decider = None
        gc.collect()
        gc.freeze()

    # ---- one execution
    def execute(self, plan, decider, trace=False):
        scn = self.scn
        self.plan, self.decider = plan, decider
        sim = core.Sim(decider, max_steps=plan.get("max_steps", scn.max_steps), mono0=plan.get("mono0", 1000.0),
                       wall0=plan.get("wall0", 1.6e9), entropy_seed=plan.get("entropy", 1))
        if trace:
            sim.trace = []
        faults.reset(plan.get("entropy", 1) % 1000)
        out_s, err_s = sys.stdout, sys.stderr
        sink = sys.stdout = sys.stderr = world.Sink()
        try:
            sim.run(lambda: scn.run(sim, plan))
        finally:
            sys.stdout, sys.stderr = out_s, err_s
        if sim.result[0] == "ok" and scn.no_reports and not any(k.startswith("fault.") and k[6:] not in NEUTRAL for k in sim.stats):
            # nothing the library was given failed, so nothing in it may fail either, even where it contains and reports it
            text = "".join(sink.text)
            if "Traceback (most recent call last)" in text:
                line = next((l for l in reversed(text.splitlines()) if l[:1].isalpha() and "Traceback" not in l), "").split(":")[0]
                sim.result = ("violation", "failure-reported", f"the library reported a failure ({line}) although nothing it was given failed")
        o = Outcome()
        o.status, o.kind, o.message = sim.result
        step, sig, hlen, now = sim.final
        o.steps, o.switches, o.sim_time = step, sim.switches, now - sim.start
        o.digest = hashlib.blake2b(repr((sim.history[:hlen], step, sig, now, sim.result)).encode(), digest_size=8).hexdigest()
        o.sig = sig
        o.stats = sim.stats
        o.decisions = decider.decisions
        o.trace = sim.trace
        o.history_len = hlen
        o.style = decider.style
        sim.keep = None
        self.runs += 1
        if self.runs % 32 == 0:
            gc.collect()
        return o

    def plan_for(self, tier, seed, index):
        rng = random.Random(derive(self.prop, "plan", seed, index))
        plan = self.scn.gen(rng, tier)
        plan.setdefault("mono0", rng.choice((0.25, 3.0, 1000.0, 86400.5)))
        plan.setdefault("entropy", rng.getrandbits(32))
        return plan

    def run_seed(self, tier, seed, index):
        plan = self.plan_for(tier, seed, index)
        s = derive(self.prop, "sched", seed, index)
        # the horizon over which preemptions are spread is part of the plan, so that it does not depend on history
        o = self.execute(plan, core.ReplayDecider({}))
        if o.status != "ok":
            return plan, o
        plan.setdefault("horizon", max(20, min(o.steps, 20000)))
        if not self.scn.scheduled or plan.get("single"):
            return plan, o
        decider = core.RandomDecider(s, expected_steps=plan["horizon"],
                                     gc_faults=self.scn.gc_faults, stall_faults=self.scn.stall_faults and not plan.get("no_stall"))
        return plan, self.execute(plan, decider)

    def replay(self, plan, decisions, trace=False):
        return self.execute(plan, core.ReplayDecider(decisions), trace)

    # ---- minimisation
    def minimise(self, plan, decisions, kind, budget_s=25.0, log=None):
        t0 = real_perf()
        over = lambda: real_perf() - t0 > budget_s

        def fails(p, d):
            try:
                o = self.replay(p, d)
            except Exception:
                return None
            return o if o.status == "violation" and o.kind == kind else None

        def try_plan(p, d):
            o = fails(p, d)
            if o:
                return d
            if not self.scn.scheduled:
                return None
            o = fails(p, {})
            if o:
                return {}
            for i in range(12):
                if over():
                    return None
                dec = core.RandomDecider(derive("min", i), expected_steps=p.get("horizon", 300), gc_faults=self.scn.gc_faults, stall_faults=self.scn.stall_faults and not p.get("no_stall"))
                try:
                    o = self.execute(p, dec)
                except Exception:
                    return None
                if o.status == "violation" and o.kind == kind:
                    d2 = dict(dec.decisions)
                    if fails(p, d2):
                        return d2
            return None

        def shrink_decisions(p, d):
            items = sorted(d.items())
            n = 2
            while items and not over():
                size = max(1, len(items) // n)
                changed = False
                i = 0
                while i < len(items) and not over():
                    cand = items[:i] + items[i + size:]
                    if fails(p, dict(cand)):
                        items = cand
                        changed = True
                    else:
                        i += size
                if not changed:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
                elif n > 2:
                    n = max(2, n - 1)
            return dict(items)

        progress = True
        decisions = shrink_decisions(plan, decisions)
        while progress and not over():
            progress = False
            for cand in self.scn.shrink(plan):
                if over():
                    break
                d = try_plan(cand, decisions)
                if d is not None:
                    plan, decisions = cand, d
                    progress = True
                    break
            decisions = shrink_decisions(plan, decisions)
        return plan, decisions


def clone(x):
    return json.loads(json.dumps(x))


class ScenarioBase:
    """A scenario: a workload and fault plan generator and an execution with its oracle."""
    max_steps = 60000
    gc_faults = False
    stall_faults = True
    scheduled = True  # False: one client, the plan decides everything
    no_reports = True  # an execution without failing callbacks must not report failures
    components = {"real": [], "stub": []}
    rule = ""

    def __init__(self, mods):
        self.m = mods

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, sim, plan):
        raise NotImplementedError

    def nontrivial(self, plan, outcome):
        return outcome.steps > 0

    # generic shrinking: drop elements of lists found anywhere in the plan under the names given
    shrink_lists = ("threads", "ops")

    def shrink(self, plan):
        paths = []

        def walk(x, path):
            if isinstance(x, dict):
                for k, v in x.items():
                    if isinstance(v, list) and (k in self.shrink_lists):
                        paths.append(path + [k])
                    walk(v, path + [k])
            elif isinstance(x, list):
                for i, v in enumerate(x):
                    walk(v, path + [i])
        walk(plan, [])
        for path in paths:
            target = plan
            for p in path:
                target = target[p]
            n = len(target)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    if size == n and n > 1 and path[-1] == "threads":
                        continue
                    c = clone(plan)
                    t = c
                    for p in path:
                        t = t[p]
                    del t[i:i + size]
                    yield c
                size //= 2
        yield from self.shrink_more(plan)

    def shrink_more(self, plan):
        return iter(())
