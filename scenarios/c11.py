"""C11: debounced stream: latest value, at most once per period, nothing lost, nothing after close."""
import asyncio
import time

from dsim.aio import SimLoop
from dsim.kit import Injected, ScenarioBase, weighted

EPS = 1e-4


class Scenario(ScenarioBase):
    scheduled = False
    components = {"real": ["nion.utils.Stream.DebounceStream", "nion.utils.Stream.ValueStream", "nion.utils.Event", "asyncio event loop, tasks and timers"], "stub": ["selector and clock (simulated)", "listeners (scripted)"]}
    rule = "A case is a seeded timeline of input changes, loop lag, listener actions and failures and closes around the debounce period in virtual time; non-trivial: at least one emission and one input change."

    def gen(self, rng, tier):
        period = rng.choice((0.0007, 0.01, 0.1, 1.0, 2.5, 20.0))
        n = rng.randrange(1, 10)
        close = rng.random() < 0.5
        table = [(6, "set"), (rng.choice((0, 0, 1)), "lag"), (rng.choice((0, 0, 1)), "same")]
        grid = rng.random() < 0.5
        ops = []
        for _ in range(n):
            dt = rng.choice((0, 0.25, 0.5, 1.0, 1.0, 1.5)) if grid else rng.random() * rng.choice((0.2, 1.5, 3))
            k = weighted(rng, table)
            ops.append([dt * period, k, rng.choice((0.3, 1.0, 2.5)) * period])
        if close:
            ops.insert(rng.randrange(len(ops) + 1), [rng.choice((0, 0.5, 1.0, 1.3)) * period, "close", 0])
        acts = []
        for _ in range(rng.choice((0, 1, 1, 2))):
            acts.append([rng.randrange(0, 4), weighted(rng, [(3, "set"), (2, "raise"), (1, "close"), (1, "lag")])])
        return dict(period=period, ops=ops, acts=acts, initial=rng.choice((None, 0)), odd=rng.randrange(1, 7), toggle=rng.random() < 0.3, consumers=rng.choice((1, 1, 2)))

    shrink_lists = ("ops", "acts")

    def nontrivial(self, plan, o):
        return o.stats.get("emissions", 0) > 0 and o.stats.get("changes", 0) > 0

    def run(self, sim, plan):
        Stream = self.m["Stream"]
        loop = SimLoop(sim)
        asyncio.set_event_loop(loop)
        P = plan["period"]
        source = Stream.ValueStream(plan["initial"]).add_ref()
        n = plan["consumers"]
        streams = [Stream.DebounceStream(source, P, loop).add_ref() for _ in range(n)]
        changes = []
        emissions = [[] for _ in range(n)]
        closed = [None] * n
        lag = [0.0]
        counter = [0]

        # input values are 1, 2, 3, ... except that one of them is None (0 if the input starts as None), or 1, 0, 1, ...
        odd = 0 if plan["initial"] is None else None
        born = sim.now

        def set_value():
            counter[0] += 1
            v = counter[0] % 2 if plan["toggle"] else odd if counter[0] == plan["odd"] else counter[0]
            changes.append((sim.now, counter[0], sim.seqno()))
            sim.count("changes")
            sim.log("set", v)
            source.value = v
            for i in range(n):
                if closed[i] is None:
                    sim.check(streams[i].value == v, "value-mismatch", f"the input was set to {v}, value property {streams[i].value}")

        def close(i):
            if closed[i] is None:
                closed[i] = sim.now
                sim.log("close", i)
                streams[i].remove_ref()

        def do(kind, arg, i=0):
            if kind == "set":
                set_value()
            elif kind == "same":
                source.value = source.value
            elif kind == "lag":
                sim.count("fault.loop_lag")
                lag[0] += arg
                time.sleep(arg)
            elif kind == "close":
                close(i)

        def emitted(i, value):
            k = len(emissions[i])
            emissions[i].append((sim.now, value, sim.seqno()))
            sim.count("emissions")
            sim.log("emit", i, value)
            sim.check(closed[i] is None, "emitted-after-close", f"stream {i} emitted {value} after it was closed")
            sim.check(value == source.value, "stale-value", f"emitted {value}, the input's value is {source.value}")
            sim.check(streams[i].value == value, "value-mismatch", f"emitted {value}, value property {streams[i].value}")
            if k:
                gap = sim.now - emissions[i][k - 1][0]
                sim.check(gap >= P - EPS * P, "too-often", f"emissions {gap:.6f} s apart, period {P}")

        def act(i, value):
            k = len(emissions[i]) - 1
            for at, what in plan["acts"]:
                if at == k:
                    if what == "raise":
                        sim.count("fault.listener_exception")
                        raise Injected(k)
                    do(what, P * 0.4, i)

        tokens = []
        for i in range(n):
            tokens.append(streams[i].value_stream.listen(lambda v, i=i: emitted(i, v)))
            tokens.append(streams[i].value_stream.listen(lambda v, i=i: act(i, v)))

        async def drive():
            for dt, kind, arg in plan["ops"]:
                if dt:
                    await asyncio.sleep(dt)
                do(kind, arg, 0)
            # until a whole period passes without a change or lag
            for _ in range(20):
                before = len(changes), lag[0]
                await asyncio.sleep(P * 1.1)
                if before == (len(changes), lag[0]):
                    break

        loop.run_until_complete(drive())
        end = sim.now
        allow = P + EPS + lag[0]
        for i in range(n):
            for t, v, seq in [(born, 0, 0)] + changes:
                if t + allow > end or (closed[i] is not None and closed[i] <= t + allow):
                    continue
                sim.check(any(se > seq and te <= t + allow for te, ve, se in emissions[i]), "not-emitted", lambda: f"the change to {v} at {t - sim.start:.6f} was not followed by an emission within {allow:.6f} s; emissions {[(round(a - sim.start, 6), b) for a, b, _ in emissions[i]]}")
            if closed[i] is None:
                sim.check(emissions[i] and emissions[i][-1][1] == source.value, "not-settled", lambda: f"settled on {emissions[i][-1:]} but the input holds {source.value}")
        for i in range(n):
            close(i)
        set_value()

        async def idle():
            await asyncio.sleep(3 * P)
            return [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]

        left = loop.run_until_complete(idle())
        sim.check(not left, "left-scheduled", f"{len(left)} tasks still scheduled after close")
        sim.check(source.ref_count == 1, "input-retained", f"input still has {source.ref_count - 1} references after close")
        asyncio.set_event_loop(None)
        loop.close()
