"""C12: sampled stream: once per period, latest value, converges; input changed from another thread."""
import asyncio
import threading
import time

from dsim.aio import SimLoop
from dsim.kit import Injected, ScenarioBase, weighted

EPS = 1e-4


class Scenario(ScenarioBase):
    components = {"real": ["nion.utils.Stream.SampleStream", "nion.utils.Stream.ValueStream", "nion.utils.Event", "asyncio event loop, tasks and timers"], "stub": ["selector, clock, threads and locks (simulated)", "listeners (scripted)"]}
    rule = "A case is a seeded timeline of input changes on another thread, closes, loop lag and listener failures around the sampling period, and a seeded schedule; non-trivial: at least one emission and one input change."

    def gen(self, rng, tier):
        period = rng.choice((0.0007, 0.01, 0.1, 1.0, 2.5, 20.0))
        ops = []
        for _ in range(rng.randrange(1, 8)):
            ops.append([period * rng.choice((0, 0, 0.25, 0.5, 1.0, 1.0, 1.0, 1.5, 2.0)), weighted(rng, [(6, "set"), (0.5, "same")])])
        loop_ops = []
        for _ in range(rng.choice((0, 0, 1, 2))):
            loop_ops.append([period * rng.choice((0.3, 0.5, 1.0, 1.4)), weighted(rng, [(2, "lag"), (1, "close"), (2, "set" if rng.random() < 0.3 else "lag")])])
        acts = [[rng.randrange(0, 4), weighted(rng, [(2, "raise"), (1, "close"), (1, "meet")])] for _ in range(rng.choice((0, 0, 1)))]
        return dict(period=period, ops=ops, loop_ops=loop_ops, acts=acts, initial=rng.choice((None, 0)), odd=rng.randrange(1, 6), toggle=rng.random() < 0.25, threaded=not any(o[1] == "set" for o in loop_ops) and rng.random() < 0.85,
                    during=rng.random() < 0.5, no_stall=rng.random() < 0.6)

    shrink_lists = ("ops", "loop_ops", "acts")

    def nontrivial(self, plan, o):
        return o.stats.get("emissions", 0) > 0 and o.stats.get("changes", 0) > 0

    def run(self, sim, plan):
        Stream = self.m["Stream"]
        loop = SimLoop(sim)
        asyncio.set_event_loop(loop)
        P = plan["period"]
        source = Stream.ValueStream(plan["initial"]).add_ref()
        changes = []
        emissions = []
        st = dict(closed=None, n=0, lag=0.0, stream=None)

        # input values are 1, 2, 3, ... except that one of them is None (0 if the input starts as None);
        # order() numbers them; or 1, 0, 1, ...
        odd = 0 if plan["initial"] is None else None

        def order(value):
            return 0 if value == plan["initial"] else plan["odd"] if value == odd else value

        def set_value():
            st["n"] += 1
            v = st["n"] % 2 if plan["toggle"] else odd if st["n"] == plan["odd"] else st["n"]
            c = [sim.now, None, v, sim.seqno(), None]
            changes.append(c)
            sim.count("changes")
            sim.log("set", v)
            source.value = v
            c[1], c[4] = sim.now, sim.seqno()

        def close():
            if st["closed"] is None:
                st["closed"] = sim.now
                sim.log("close")
                st["stream"].remove_ref()

        def emitted(value):
            sim.count("emissions")
            sim.log("emit", value)
            sim.check(st["closed"] is None, "emitted-after-close", f"emitted {value} after close")
            sim.check(value == plan["initial"] or any(c[2] == value for c in changes), "bogus-value", f"emitted {value!r}, never a value of the input")
            sim.check(st["stream"].value == value, "value-mismatch", f"emitted {value}, value property {st['stream'].value}")
            if emissions:
                gap = sim.now - emissions[-1][0]
                sim.check(gap >= P - EPS * P, "too-often", f"emissions {gap:.6f} s apart, period {P}")
                sim.check(len(emissions) <= len(changes) if plan["toggle"] else emissions[-1][1] != value, "unchanged", f"emitted {value} twice in a row although the input did not change in between")
                if not plan["no_stall"] and not plan["toggle"]:
                    sim.check(order(value) >= order(emissions[-1][1]), "went-back", f"emitted {value} after {emissions[-1][1]}")
            if plan["no_stall"] and not plan["toggle"]:
                # every change finished at an earlier instant must be reflected
                past = [order(c[2]) for c in changes if c[1] is not None and c[1] < sim.now - 1e-9]
                sim.check(order(value) >= (past[-1] if past else 0), "stale-value", lambda: f"emitted {value} at {sim.now - sim.start:.6f}, changes {[(round(a - sim.start, 6), v) for a, b, v, _, _ in changes]}")
            if not changes:
                sim.check(value == plan["initial"], "bogus-value", f"emitted {value!r}, the input holds {plan['initial']!r}")
            emissions.append((sim.now, value, sim.seqno()))

        def act(value):
            k = len(emissions) - 1
            for at, what in plan["acts"]:
                if at == k:
                    if what == "raise":
                        sim.count("fault.listener_exception")
                        raise Injected(k)
                    if what == "meet" and st["closed"] is None and not plan["threaded"]:
                        # a listener that waits for a change made by another thread
                        sim.count("meetings")
                        helper = threading.Thread(target=set_value)
                        helper.start()
                        helper.join()
                    elif what == "close":
                        close()

        def changer():
            for dt, kind in plan["ops"]:
                if dt:
                    time.sleep(dt)
                if kind == "set":
                    set_value()
                else:
                    source.value = source.value

        th = None
        if plan["threaded"] and plan["during"]:
            th = sim.spawn(changer, "input")
        stream = st["stream"] = Stream.SampleStream(source, P, loop).add_ref()
        tokens = [stream.value_stream.listen(emitted), stream.value_stream.listen(act)]
        if plan["threaded"] and not plan["during"]:
            th = sim.spawn(changer, "input")

        async def drive():
            for dt, kind in plan["loop_ops"]:
                await asyncio.sleep(dt)
                if kind == "lag":
                    sim.count("fault.loop_lag")
                    st["lag"] += P * 1.7
                    time.sleep(P * 1.7)
                elif kind == "close":
                    close()
                else:
                    set_value()
            if not plan["threaded"]:
                for dt, kind in plan["ops"]:
                    if dt:
                        await asyncio.sleep(dt)
                    if kind == "set":
                        set_value()
            while th is not None and th.state != "D":
                await asyncio.sleep(P / 2)
            last = sim.now
            # the first sample after the last change
            n = 0
            while sim.now - last < P * 1.01 + (0 if plan["no_stall"] else 20 * P):
                await asyncio.sleep(P * 1.01)
                if changes and changes[-1][1] > last:
                    last = changes[-1][1]  # a listener changed the input meanwhile

        loop.run_until_complete(drive())
        if st["closed"] is None:
            sim.check(emissions, "never-emitted", "no emission at all")
            sim.check(emissions[-1][1] == source.value, "not-converged", lambda: f"the input has been {source.value} for a period, the last emission is {emissions[-1][1]}")
            if plan["no_stall"]:
                for b, e, v, sb, se in changes:
                    if e + P * 1.01 + st["lag"] < sim.now:
                        sim.check(any(b - EPS <= t <= e + P * 1.001 + EPS + st["lag"] and (s > sb if plan["toggle"] else order(ev) >= order(v)) for t, ev, s in emissions), "not-emitted", lambda: f"the change to {v} at {e - sim.start:.6f} was not emitted by the first sample after it: {[(round(t - sim.start, 6), x) for t, x, _ in emissions]}")
        close()
        set_value()

        async def idle():
            await asyncio.sleep(3 * P)
            return [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
        left = loop.run_until_complete(idle())
        sim.check(source.ref_count == 1, "input-retained", f"input still has {source.ref_count - 1} references after close")
        sim.check(not left, "left-scheduled", f"{len(left)} tasks still scheduled after close")
        asyncio.set_event_loop(None)
        loop.close()
