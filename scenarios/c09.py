"""C09: dispatcher: no lost trigger, serial invocations, waiting triggers, close."""
import threading
import time

from dsim.kit import Injected, ScenarioBase, spawn_all, weighted


class Scenario(ScenarioBase):
    max_steps = 600000
    components = {"real": ["nion.utils.ThreadPool.ThreadDispatcher", "threading.Event", "threading.Thread"], "stub": ["dispatched function (scripted)", "threads, locks and clocks (simulated)"]}
    rule = "A case is a seeded workload (1-3 clients triggering, waiting, sleeping; function failing or slow; close at a seeded moment) and a seeded schedule with stalls; non-trivial: at least one invocation and two context switches."

    def gen(self, rng, tier):
        interval = rng.choice((0, None, 0.001, 0.01, 0.05))
        table = [(3, "trigger"), (rng.choice((0, 1, 3)), "wait"), (rng.choice((0, 1, 2)), "sleep")]
        threads = []
        for _ in range(rng.choice((1, 1, 2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(1, 6)):
                k = weighted(rng, table)
                ops.append([k, rng.choice((0.0005, 0.004, 0.02))] if k == "sleep" else [k])
            threads.append(dict(ops=ops))
        p = rng.choice((0, 0, 0.3, 0.7))
        slow = rng.choice((0.02, 0.02, 0.02, 2, 12, 35, 70))
        fn = [[rng.choice((0, 0, 0, 0.002, slow)), rng.random() < p] for _ in range(5)]
        close = rng.choice(("quiesce", "quiesce", "now", "client"))
        if close == "client":
            threads.append(dict(ops=[["sleep", rng.choice((0.0005, 0.004, 0.02))]] * rng.randrange(2) + [["close"]]))
        return dict(interval=interval, threads=threads, fn=fn, close=close, early=rng.random() < 0.2, retrigger=rng.choice((0, 0, 0, 1, 2)), gate=rng.randrange(1, 3) if rng.random() < 0.1 else 0)

    def nontrivial(self, plan, o):
        return o.stats.get("invocations", 0) > 0 and o.switches >= 2

    def shrink_more(self, plan):
        from dsim.kit import clone
        for k, v in (("early", False), ("retrigger", 0), ("interval", 0), ("gate", 0)):
            if plan[k] != v:
                c = clone(plan)
                c[k] = v
                yield c

    def run(self, sim, plan):
        inv = []
        trig = []
        closed = dict(b=None, e=None)
        st = dict(running=0)
        gate, helper = threading.Event(), []  # the function may wait for another thread that triggers

        def fn():
            i = dict(s=sim.seqno(), e=None)
            k = len(inv)
            inv.append(i)
            sim.count("invocations")
            sim.log("begin", k)
            sim.check(st["running"] == 0, "overlap", f"invocation {k} overlaps another")
            sim.check(closed["e"] is None, "invoked-after-close", f"invocation {k} began after close had returned")
            begun = len(trig)
            sim.check(k < begun, "untriggered", f"invocation {k} although only {begun} triggers were made")
            st["running"] += 1
            sim.point()
            if helper:
                gate.wait()
            dt, fail = plan["fn"][k % len(plan["fn"])]
            if dt:
                time.sleep(dt)
            if k < plan["retrigger"]:
                trigger(False)
            st["running"] -= 1
            i["e"] = sim.seqno()
            sim.log("end", k)
            if fail:
                sim.count("fault.function_exception")
                raise Injected(k)

        d = self.m["ThreadPool"].ThreadDispatcher(fn, plan["interval"])

        def trigger(wait):
            t = dict(b=sim.seqno(), e=None, wait=wait)
            trig.append(t)
            if wait:
                d.trigger(True)
            else:
                d.trigger()
            t["e"] = sim.seqno()
            sim.log("trigger", wait)
            if wait and closed["b"] is None:
                sim.check(any(i["s"] > t["b"] and i["e"] is not None and i["e"] < t["e"] for i in inv), "early-return",
                          f"a waiting trigger returned before any invocation that began after it had finished")

        def patience(done):
            for _ in range(300):
                if done():
                    return
                time.sleep(0.1)
            for _ in range(20):
                if done():
                    return
                time.sleep(75)

        def close():
            closed["b"] = sim.seqno()
            d.close()
            closed["e"] = sim.seqno()
            sim.log("closed")
            sim.check(st["running"] == 0, "running-after-close", "close returned while the function is running")

        def client(ops):
            def go():
                for op in ops:
                    if closed["e"] is not None:
                        break  # a closed dispatcher is not used any more
                    if op[0] == "trigger":
                        trigger(False)
                    elif op[0] == "wait":
                        trigger(True)
                    elif op[0] == "sleep":
                        time.sleep(op[1])
                    else:
                        close()
                    sim.point()
            return go

        if plan["early"]:
            trigger(False)
        d.start()

        def helping():
            helper.append(1)
            client([["trigger"]] * plan["gate"])()
            gate.set()
        ths = spawn_all(sim, [client(t["ops"]) for t in plan["threads"]] + ([helping] if plan["gate"] else []))
        if plan["close"] == "now":
            sim.point()
            close()
        sim.join(*ths)
        if plan["close"] == "quiesce":
            patience(lambda: all(any(i["s"] > t["b"] for i in inv) for t in trig))
            for t in trig:
                sim.check(any(i["s"] > t["b"] for i in inv), "lost-trigger", lambda: f"no invocation began after trigger {trig.index(t)} ({len(trig)} triggers, {len(inv)} invocations)")
            # a raising function does not stop later triggers from being served
            time.sleep(3)
            n = len(inv)
            trigger(False)
            patience(lambda: len(inv) > n)
            sim.check(len(inv) > n, "lost-trigger", "a trigger on the idle dispatcher was not served")
            close()
        elif closed["e"] is None:
            close()
        time.sleep(1)
