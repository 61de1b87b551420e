"""C10: dispatcher honours its minimum interval whatever the wall clock does."""
import time

from dsim.kit import Injected, ScenarioBase, spawn_all, weighted

EPS = 1e-5


class Scenario(ScenarioBase):
    components = {"real": ["nion.utils.ThreadPool.ThreadDispatcher", "threading.Event", "threading.Thread"], "stub": ["dispatched function (scripted)", "threads, locks, wall clock and monotonic clock (simulated)"]}
    rule = "A case is a seeded interval, trigger timing, sequence of wall-clock steps and schedule; non-trivial: at least two invocations."

    def gen(self, rng, tier):
        interval = rng.choice((0.001, 0.0015, 0.01, 0.1, 0.5, 1.0, 1.7, 5.0, 30.0))
        pw = rng.choice((0, 0, 1))
        px = rng.choice((0, 0, 0.3))
        threads = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            ops = []
            for _ in range(rng.randrange(1, 7)):
                k = weighted(rng, [(4, "trigger"), (pw, "wait"), (3, "sleep")])
                ops.append([k, interval * rng.choice((0.1, 0.3, 0.5, 0.9, 0.999, 1.0, 1.2, 2.0, 3.3))] if k == "sleep" else [k])
            threads.append(dict(ops=ops))
        steps = []
        if rng.random() < 0.7:
            for _ in range(rng.randrange(1, 4)):
                steps.append([interval * rng.choice((0.05, 0.4, 0.8, 1.1, 2.5)), rng.choice((-3600.0, -86400.0 * 365 * 60, -interval * 3, -interval * 0.5, interval * 0.5, interval * 2, 3600.0, 1e7))])
        return dict(interval=interval, threads=threads, steps=steps, fn=[interval * rng.choice((0, 0, 0.2, 1.5)) for _ in range(3)], fails=[rng.random() < px for _ in range(4)], no_stall=rng.random() < 0.75,
                    wall0=rng.choice((1.6e9, 1.6e9, 100.0, 0.5)))

    shrink_lists = ("threads", "ops", "steps")

    def nontrivial(self, plan, o):
        return o.stats.get("invocations", 0) >= 2

    def run(self, sim, plan):
        T = plan["interval"]
        inv = []
        trig = []

        def fn():
            i = dict(q=sim.seqno(), s=sim.now, e=None, qe=None)
            k = len(inv)
            inv.append(i)
            sim.count("invocations")
            sim.log("begin", k, round(sim.now, 6))
            dt = plan["fn"][k % len(plan["fn"])]
            if dt:
                time.sleep(dt)
            i["e"], i["qe"] = sim.now, sim.seqno()
            if plan["fails"][k % 4]:
                sim.count("fault.function_exception")
                raise Injected(k)

        d = self.m["ThreadPool"].ThreadDispatcher(fn, T)
        d.start()

        def client(ops):
            def go():
                for op in ops:
                    if op[0] in ("trigger", "wait"):
                        t = dict(t=sim.now, b=sim.seqno(), e=None)
                        trig.append(t)
                        d.trigger(op[0] == "wait")
                        t["e"] = sim.seqno()
                        sim.log("trigger", round(sim.now, 6))
                    else:
                        time.sleep(op[1])
            return go

        def stepper():
            for dt, delta in plan["steps"]:
                time.sleep(dt)
                sim.step_wall_clock(delta)
                sim.log("clock", delta)

        ths = spawn_all(sim, [client(t["ops"]) for t in plan["threads"]] + [stepper])
        sim.join(*ths)
        time.sleep(10 * T + 5 * max(plan["fn"]) + 1)
        n = len(inv)
        for k in range(1, n):
            gap = inv[k]["s"] - inv[k - 1]["e"]
            sim.check(gap >= T - EPS, "interval-violated", f"invocation {k} began {gap:.6f} s after the previous one ended, minimum interval {T}")
        for k in range(2, n):
            sim.check(any(t["e"] > inv[k - 2]["qe"] and t["b"] < inv[k]["q"] for t in trig), "multiplied", f"invocation {k} has no trigger of its own")
        if plan.get("no_stall"):
            for t in trig:
                later = [i for i in inv if i["q"] > t["b"]]
                sim.check(later, "not-served", f"the trigger at {t['t'] - sim.start:.6f} was not served within {sim.now - t['t']:.3f} s (minimum interval {T})")
                free = max([t["t"]] + [i["e"] for i in inv if i["q"] < t["b"] and i["e"] is not None])
                sim.check(later[0]["s"] <= free + T + EPS, "served-late", f"trigger at {t['t'] - sim.start:.6f}, dispatcher free at {free - sim.start:.6f}, served at {later[0]['s'] - sim.start:.6f}, minimum interval {T}")
        d.close()
