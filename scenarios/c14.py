"""C14: model fed by a stream of functions evaluated on executor threads."""
import asyncio
import time

from dsim.aio import SimLoop
from dsim.kit import Injected, ScenarioBase, weighted


class Scenario(ScenarioBase):
    components = {"real": ["nion.utils.Model.FuncStreamValueModel", "nion.utils.Stream.ValueStream", "nion.utils.Event", "asyncio event loop and tasks", "concurrent.futures.ThreadPoolExecutor"], "stub": ["selector, clock, threads and locks (simulated)", "evaluated functions (scripted)"]}
    rule = "A case is a seeded timeline of functions (durations, failures, results), a close time and a seeded schedule of executor threads; non-trivial: at least two evaluations in flight or one completed."

    def gen(self, rng, tier):
        n = rng.randrange(1, 6)
        px = rng.choice((0, 0, 0.3))
        funcs = [dict(dt=rng.choice((0, 0, 0, 0.01, 0.05, 0.2)), fail=rng.random() < px, none=rng.random() < 0.08, again=rng.choice((0, 0, 0, 0, 1, 2)), gap=rng.choice((0, 0, 0.005, 0.03, 0.3))) for _ in range(n)]
        close = rng.choice((None, None, None, 0.0, 0.02, 0.1))
        return dict(funcs=funcs, close=close, initial=rng.choice((None, -1)), raising_observer=rng.random() < 0.2, watcher=rng.random() < 0.5, workers=rng.choice((None, 1, 2)), hook=rng.choice((None, None, None, 1, 2)))

    shrink_lists = ("funcs",)

    def shrink(self, plan):
        for c in super().shrink(plan):
            if c["funcs"]:
                yield c

    def nontrivial(self, plan, o):
        return o.stats.get("evaluations", 0) > 0 and o.switches >= 2

    def run(self, sim, plan):
        loop = SimLoop(sim)
        asyncio.set_event_loop(loop)
        if plan["workers"]:
            import concurrent.futures
            loop.set_default_executor(concurrent.futures.ThreadPoolExecutor(max_workers=plan["workers"]))
        main = sim.current.tid
        done = {}
        shown = []
        st = dict(closed=False, value=None)
        inflight = [0]
        version = [0] * len(plan["funcs"])  # a function sent again gives another result
        sent = [len(plan["funcs"])]
        finished = [0]

        def result(i):
            return None if plan["funcs"][i]["none"] else (i + 1) * 10 + version[i]

        def make(i):
            spec = plan["funcs"][i]

            def func():
                sim.count("evaluations")
                sim.log("eval", i)
                sim.check(sim.current.tid != main, "on-loop-thread", f"function {i} was evaluated on the event loop's thread")
                inflight[0] += 1
                value = result(i)
                if inflight[0] > 1:
                    sim.count("overlapping_evaluations")
                sim.point()
                if spec["dt"]:
                    time.sleep(spec["dt"])
                inflight[0] -= 1
                done[i] = True
                finished[0] += 1
                sim.log("evaluated", i)
                if spec["fail"]:
                    sim.count("fault.function_exception")
                    raise Injected(i)
                return value
            return func

        stream = self.m["Stream"].ValueStream(make(0)).add_ref()
        model = self.m["Model"].FuncStreamValueModel(stream, loop, value=plan["initial"])

        def changed(key):
            v = model.value
            sim.log("shown", v)
            sim.check(not st["closed"], "changed-after-close", f"observers were told of value {v} after close")
            if v is not None and v != plan["initial"]:
                i = v // 10 - 1 if isinstance(v, int) else -1
                sim.check(0 <= i < len(plan["funcs"]) and not plan["funcs"][i]["fail"] and done.get(i), "bogus-value", f"shows {v}")
                best = max([x for x in shown if x is not None and x != plan["initial"]], default=0)
                # what a function sent again gives depends on when it is evaluated, so only functions are compared
                sim.check(v // 10 >= best // 10, "went-back", f"shows {v} after {best}")
            shown.append(v)

        token = model.property_changed_event.listen(changed)
        if plan["raising_observer"]:
            def bad(key):
                sim.count("fault.listener_exception")
                raise Injected("observer")
            token2 = model.property_changed_event.listen(bad)

        if plan["hook"]:
            def hook(value):
                calls[0] += 1
                if calls[0] % plan["hook"] == 0:
                    sim.count("fault.hook_exception")
                    raise Injected("on_value_changed")
            calls = [0]
            model.on_value_changed = hook

        async def drive():
            for i in range(len(plan["funcs"])):
                if i:
                    await asyncio.sleep(plan["funcs"][i]["gap"])
                    stream.value = make(i)
                for _ in range(plan["funcs"][i]["again"]):
                    await asyncio.sleep(plan["funcs"][i]["gap"])
                    version[i] += 1
                    sent[0] += 1
                    sim.log("again", i)
                    stream.value_stream.fire(stream.value)
            if plan["close"] is not None:
                await asyncio.sleep(plan["close"])
                st["value"] = model.value
                st["closed"] = True
                sim.log("close")
                model.close()
            for _ in range(200):
                await asyncio.sleep(0.2)
                if finished[0] >= sent[0] and not [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]:
                    break

        loop.run_until_complete(drive())
        if st["closed"]:
            sim.check(model.value == st["value"], "changed-after-close", f"value changed from {st['value']} to {model.value} after close")
            sim.check(stream.ref_count == 1, "input-retained", "the function stream is still referenced after close")
        else:
            sim.check(len(done) == len(plan["funcs"]), "not-evaluated", f"only functions {sorted(done)} were evaluated")
            good = [i for i in range(len(plan["funcs"])) if not plan["funcs"][i]["fail"]]
            expect = result(good[-1]) if good else plan["initial"]
            sim.check(model.value == expect, "wrong-final-value", f"final value {model.value}, the newest successful function gives {expect}")
            model.close()
        self.m["Process"].close_event_loop(loop)
        asyncio.set_event_loop(None)
