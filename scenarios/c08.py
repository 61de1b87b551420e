"""C08: thread pool: at most once, close is a barrier, run_one/run_all in order and always returning."""
import functools
import threading
import time

from dsim.kit import Injected, ScenarioBase, spawn_all, weighted


class Callable:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self):
        return self.fn()


class Empty(Callable):
    """false in a condition, but to be called all the same"""

    def __len__(self):
        return 0


class Scenario(ScenarioBase):
    max_steps = 600000
    components = {"real": ["nion.utils.ThreadPool.ThreadPool", "queue.Queue", "threading.Thread"], "stub": ["queued functions (scripted)", "threads, locks and clock (simulated)"]}
    rule = "A case is a seeded workload (0-3 pool threads, clients queueing failing, sleeping and re-queueing functions, explicit runners, close at a seeded moment) and a seeded schedule; non-trivial: at least one function ran and two context switches."

    def gen(self, rng, tier):
        pool = rng.choice((0, 0, 1, 1, 2, 3)) if rng.random() < 0.99 else rng.randrange(15, 22)

        def fn(depth=0):
            return [weighted(rng, [(5, "n"), (rng.choice((0, 1, 2)), "x"), (rng.choice((0, 1)), "s"), (rng.choice((0, 0, 0, 0.5)), "l"), (0 if depth else rng.choice((0, 1, 1)), "q")]), fn(depth + 1) if depth == 0 else None]
        threads = []
        ticks = rng.random() < 0.3
        for _ in range(rng.choice((1, 1, 2, 3))):
            table = [(4, "queue"), (rng.choice((0, 1, 2)), "run_all"), (rng.choice((0, 1, 2)), "run_one"), (rng.choice((0, 1)), "sleep")]
            ops = []
            for _ in range(rng.randrange(1, 6)):
                k = weighted(rng, table)
                ops.append([k, fn()] if k == "queue" else [k])
                if k == "queue" and ticks and rng.random() < 0.5:
                    ops.append(["tick"])
            threads.append(dict(ops=ops))
        close = rng.choice(("drain", "drain", "now", "client"))
        if close == "client":
            threads.append(dict(ops=[["sleep"]] * rng.randrange(2) + [["close"]]))
        return dict(gate=[rng.choice(("queue", "queue", "run_one", "run_all")) for _ in range(rng.randrange(1, 4))] if rng.random() < 0.1 else [], bare=rng.choice((0, 0, 0, 1, 2, 3)), pool=pool, twice=rng.random() < 0.2, late=rng.random() < 0.3, pre=[fn() for _ in range(rng.randrange(0, 4))], threads=threads, close=close, after=rng.random() < 0.5)

    shrink_lists = ("threads", "ops", "pre", "gate")

    def nontrivial(self, plan, o):
        return o.stats.get("ran", 0) > 0 and o.switches >= 2

    def run(self, sim, plan):
        pool = self.m["ThreadPool"].ThreadPool()
        fns = []
        closed = dict(b=None, e=None)
        running = set()
        runs = []
        runner = {}
        ticks = [0, 0]  # queued, run
        gate, helper = threading.Event(), []  # a function may wait for another thread that uses the pool

        def tick():
            sim.check(closed["e"] is None, "ran-after-close", "a function started after close had returned")
            ticks[1] += 1
            sim.check(ticks[1] <= ticks[0], "ran-twice", lambda: f"a function queued {ticks[0]} times ran {ticks[1]} times")
            sim.log("tick", ticks[1])

        def queue(spec):
            f = dict(id=len(fns), b=sim.seqno(), e=None, s=None, f=None, by=None)
            fns.append(f)

            def work():
                sim.check(f["s"] is None, "ran-twice", f"function {f['id']} ran twice")
                sim.check(closed["e"] is None, "ran-after-close", f"function {f['id']} started after close had returned")
                f["s"] = sim.seqno()
                f["by"] = runner.get(sim.current.tid)
                if f["by"] is not None:
                    runs[f["by"]]["ran"].append(f["id"])
                running.add(f["id"])
                sim.count("ran")
                sim.log("run", f["id"])
                sim.point()
                if helper and sim.current.tid not in helper:
                    gate.wait()
                if spec[0] == "s":
                    time.sleep(0.01 * (1 + f["id"] % 3))
                elif spec[0] == "l":
                    time.sleep((2.0, 12.0, 35.0, 70.0)[f["id"] % 4])
                elif spec[0] == "q":
                    queue(spec[1])
                f["f"] = sim.seqno()
                running.discard(f["id"])
                if spec[0] == "x":
                    sim.count("fault.function_exception")
                    raise Injected(f["id"])
            fn = work if plan["bare"] == 0 else functools.partial(work) if plan["bare"] == 1 else Callable(work) if plan["bare"] == 2 else Empty(work)
            pool.queue_fn(fn, "task" if f["id"] % 2 else None)
            f["e"] = sim.seqno()
            sim.log("queue", f["id"])

        def patience(done):
            for _ in range(400):
                if done():
                    return
                time.sleep(0.05)
            for _ in range(len(fns) + 2):
                if done():
                    return
                time.sleep(75)

        def close():
            closed["b"] = sim.seqno()
            pool.close()
            closed["e"] = sim.seqno()
            sim.log("closed")
            sim.check(not running, "running-after-close", f"close returned while {sorted(running)} are running")

        def explicit(kind):
            r = dict(kind=kind, b=sim.seqno(), e=None, ran=[])
            runs.append(r)
            runner[sim.current.tid] = len(runs) - 1
            getattr(pool, kind)()
            runner[sim.current.tid] = None
            r["e"] = sim.seqno()
            sim.log(kind, tuple(r["ran"]))

        def client(ops):
            def go():
                for op in ops:
                    if op[0] == "queue":
                        queue(op[1])
                    elif op[0] in ("run_all", "run_one"):
                        explicit(op[0])
                    elif op[0] == "tick":
                        ticks[0] += 1
                        pool.queue_fn(tick)
                    elif op[0] == "sleep":
                        time.sleep(0.005)
                    else:
                        close()
                    sim.point()
            return go

        first = [len(sim.threads), 0]
        def start():
            if plan["twice"] and plan["pool"] > 1:
                pool.start(plan["pool"] - 1)
                pool.start(1)
            else:
                pool.start(plan["pool"])

        if plan["pool"] and not plan["late"]:
            start()
        for f in plan["pre"]:
            queue(f)
        if plan["pool"] and plan["late"]:
            start()
        first[1] = len(sim.threads)

        def helping():
            helper.append(sim.current.tid)
            client([[k, ["n", None]] for k in plan["gate"]])()
            gate.set()
        ths = spawn_all(sim, [client(t["ops"]) for t in plan["threads"]] + ([helping] if plan["gate"] else []))
        if plan["close"] == "now":
            sim.point()
            close()
        sim.join(*ths)
        if plan["close"] == "drain":
            if plan["pool"]:
                patience(lambda: all(f["f"] is not None for f in fns) and ticks[0] == ticks[1])
                left = [f["id"] for f in fns if f["f"] is None]
                sim.check(not left, "not-run", f"functions {left} were never run although the pool is open and idle")
            else:
                explicit("run_all")
                left = [f["id"] for f in fns if f["f"] is None]
                sim.check(not left, "not-run", f"run_all returned leaving {left}")
            sim.check(ticks[0] == ticks[1], "not-run", lambda: f"a function queued {ticks[0]} times ran {ticks[1]} times")
            close()
        if plan["pool"] and closed["e"] is not None:
            mine = sim.threads[first[0]:first[1]]
            patience(lambda: all(t.state == "D" for t in mine))
            left = [t for t in mine if t.state != "D"]
            sim.check(not left, "threads-left", f"{len(left)} of {plan['pool']} pool threads are still there after close")
        if closed["e"] is not None and plan["after"]:
            queue(["n", None])
            if plan["pool"] == 0:
                explicit("run_all")
                explicit("run_one")
            time.sleep(0.5)
        # explicit runners
        runners = {i for i, t in enumerate(plan["threads"]) if any(o[0].startswith("run_") for o in t["ops"])} | {-1 for k in plan["gate"] if k != "queue"}
        for r in runs:
            for i, x in enumerate(r["ran"]):
                for y in r["ran"][i + 1:]:
                    sim.check(not fns[y]["e"] < fns[x]["b"], "reordered", f"{r['kind']} ran {x} before {y}, which was queued earlier")
            if r["kind"] == "run_one":
                sim.check(len(r["ran"]) <= 1, "too-many", f"run_one ran {r['ran']}")
            if plan["pool"] == 0 and len(runners) <= 1 and (closed["b"] is None or closed["b"] > r["e"]):
                before = [f["id"] for f in fns if f["e"] < r["b"] and (f["s"] is None or f["s"] > r["b"])]
                if r["kind"] == "run_all":
                    left = [i for i in before if fns[i]["s"] is None or fns[i]["s"] > r["e"]]
                    sim.check(not left, "left-behind", f"run_all returned leaving {left}")
                elif before and not ticks[0]:
                    sim.check(r["ran"] and fns[r["ran"][0]]["b"] <= max(fns[i]["b"] for i in before), "left-behind", f"run_one ran {r['ran']}, pending {before}")
