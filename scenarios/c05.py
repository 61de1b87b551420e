"""C05: a promise is evaluated at most once successfully and shared."""
import threading

from dsim.kit import Injected, InjectedBase, ScenarioBase, run_all, weighted


class Scenario(ScenarioBase):
    stall_faults = False
    components = {"real": ["nion.utils.Promise"], "stub": ["the promised function (scripted failures and durations)", "threads and locks (simulated)"]}
    rule = "A case is a seeded number of readers, a script of failures of the function and a seeded schedule; non-trivial: at least two context switches."

    def gen(self, rng, tier):
        n = rng.choice((1, 2, 3, 4))
        table = [(3, "value"), (1, "opt"), (1, "has")]
        p = rng.choice((0, 0.3, 0.6))
        threads = [dict(ops=[weighted(rng, table) for _ in range(rng.randrange(1, 4))]) for _ in range(n)]
        gated = rng.random() < 0.3
        return dict(threads=threads, fail=[rng.random() < p for _ in range(4)], points=rng.randrange(4), gated=gated, base=rng.random() < 0.2, result=rng.choice(("obj", "obj", "none", "zero", "fn")))

    def nontrivial(self, plan, o):
        return o.switches >= 2

    def run(self, sim, plan):
        gate = threading.Event()
        running = []
        outcomes = []  # per call: None while running, ("raise", e) or ("value", v)
        mine = {}  # tid -> calls made by the request in progress

        def fn():
            k = len(outcomes)
            outcomes.append(None)
            sim.log("eval", k)
            sim.check(not running, "concurrent-evaluation", f"evaluations {running + [k]} run at once")
            sim.check(not any(o and o[0] == "value" for o in outcomes), "evaluated-again", "the function ran again after it had returned")
            req = mine.get(sim.current.tid)
            sim.check(req is not None, "unrequested-evaluation", "the function was run without a request for the value")
            req.append(k)
            running.append(k)
            for _ in range(plan["points"]):
                sim.point()
            if plan["gated"] and k == 0:
                gate.wait()  # set by a reader that only looks
            running.remove(k)
            if k < len(plan["fail"]) and plan["fail"][k]:
                e = InjectedBase(k) if plan["base"] else Injected(k)
                outcomes[k] = ("raise", e)
                sim.count("fault.evaluation_exception")
                raise e
            v = {"obj": object(), "none": None, "zero": 0, "fn": lambda: None}[plan["result"]]
            outcomes[k] = ("value", v)
            return v

        p = self.m["Promise"].Promise(fn)

        def final():
            return next((o for o in outcomes if o and o[0] == "value"), None)

        def look():
            before = final()
            v = p.opt_value
            after = final()
            if v is not None:
                sim.check(after is not None and v is after[1], "wrong-value", f"opt_value {v!r}, final {after!r}")
            sim.log("look", v is not None)

        def client(ops):
            def go():
                for op in ops:
                    if op == "value":
                        tid = sim.current.tid
                        calls = mine[tid] = []
                        try:
                            v = p.value
                        except (Injected, InjectedBase) as e:
                            mine[tid] = None
                            sim.check(calls and outcomes[calls[-1]] == ("raise", e), "wrong-exception", f"request got {e!r} from an evaluation it did not make")
                            sim.log("raised")
                        else:
                            mine[tid] = None
                            f = final()
                            sim.check(f is not None, "no-evaluation", f"a request returned {v!r} before any evaluation succeeded")
                            sim.check(v is f[1], "wrong-value", f"a request returned {v!r}, the function returned {f[1]!r}")
                            sim.check(not any(outcomes[k][0] == "raise" for k in calls), "swallowed-exception", "a request whose evaluation failed returned normally")
                            sim.log("got")
                    elif op == "opt":
                        tid = sim.current.tid
                        look()
                    else:
                        h = p.has_value
                        sim.check(not h or final() is not None, "wrong-has-value", "has_value before any evaluation succeeded")
                        if plan["result"] != "none" and not h:
                            pass
                    sim.point()
            return go

        fns = [client(t["ops"]) for t in plan["threads"]]
        if plan["gated"]:
            def looker():
                look()
                p.has_value
                gate.set()
            fns.append(looker)
        run_all(sim, fns)
        for _ in range(len(plan["fail"]) + 1):
            client(["value"])()
        sim.check(final() is not None, "never-evaluated", "no evaluation succeeded although a request was made after the failures")
        if plan["result"] != "none":
            sim.check(p.has_value and p.opt_value is final()[1], "wrong-value", "has_value/opt_value after evaluation")
