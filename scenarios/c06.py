"""C06: task queue: exactly once, in order, bounded per call, failing tasks contained."""
import threading

from dsim.kit import Injected, InjectedBase, ScenarioBase, run_all, weighted


class Quiet(list):
    """a callable task that is false in a condition"""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __call__(self):
        self.fn()


class Scenario(ScenarioBase):
    stall_faults = False
    components = {"real": ["nion.utils.Process.TaskQueue", "queue.Queue"], "stub": ["tasks (scripted)", "threads and locks (simulated)"]}
    rule = "A case is a seeded workload of producers, performers, clearers and joiners with failing and re-queueing tasks and a seeded schedule; non-trivial: at least one task performed or cleared under two context switches."

    def gen(self, rng, tier):
        shape = rng.choice(("spsc", "mpsc", "mpmc", "clear", "seq", "seq"))

        def task(depth=0):
            k = weighted(rng, [(6, "n"), (rng.choice((0, 1, 3)), "x"), (0 if depth > 1 else rng.choice((0, 1, 2)), "q"), (rng.choice((0, 0, 0.5)), "p")])
            return [k, [task(depth + 1) for _ in range(rng.randrange(1, 3))] if k == "q" else []]

        def puts(n):
            return [["put", task()] for _ in range(rng.randrange(1, n + 1))]

        def performs(n):
            return [["perform"] for _ in range(rng.randrange(1, n + 1))]
        threads = []
        if shape == "seq":
            ops = []
            for _ in range(rng.randrange(2, 10)):
                ops.append(weighted(rng, [(4, ["put", task()]), (3, ["perform"]), (rng.choice((0, 1)), ["clear"])]))
            threads.append(dict(ops=ops))
        else:
            for _ in range(1 if shape == "spsc" else rng.randrange(1, 4)):
                threads.append(dict(ops=puts(4)))
            for _ in range(rng.choice((2, 3)) if shape == "mpmc" else 1):
                threads.append(dict(ops=performs(3)))
            if shape == "clear":
                threads.append(dict(ops=[["clear"] for _ in range(rng.randrange(1, 3))]))
        if rng.random() < 0.4:
            threads.append(dict(ops=[["join"]]))
        again = shape == "seq" and rng.random() < 0.3 and not any(o[0] == "clear" for t in threads for o in t["ops"])
        many = rng.random() < 0.004  # a crowd of tasks
        if many:
            threads = threads[:2]
        return dict(pre=[["put", task() if not many else ["n", []]] for _ in range(rng.randrange(66, 140) if many else rng.randrange(0, 4))], threads=threads, again=again, gate=rng.randrange(1, 3) if not again and rng.random() < 0.1 else 0, base=rng.random() < 0.2)

    shrink_lists = ("threads", "ops", "pre")

    def nontrivial(self, plan, o):
        return o.stats.get("performed", 0) + o.stats.get("clears", 0) > 0 and o.switches >= 2

    def run(self, sim, plan):
        q = self.m["Process"].TaskQueue()
        tasks = []
        calls = []
        clears = []
        joins = []
        stack = {}  # tid -> perform calls in progress
        nested = [False]
        performers = {i for i, t in enumerate(plan["threads"]) if any(o[0] == "perform" for o in t["ops"])}
        clearers = {i for i, t in enumerate(plan["threads"]) if any(o[0] == "clear" for o in t["ops"])}
        solo = len(performers | clearers) <= 1

        gate, helper = threading.Event(), []  # a task may wait for another thread that puts
        shared = []

        def same():
            """one function, put several times; it is performed in the order it was put"""
            t = next((t for t in shared if t["s"] is None), None)
            sim.check(t is not None, "performed-twice", "a function was performed more often than it was put")
            st = stack.get(sim.current.tid)
            sim.check(st, "performed-elsewhere", "a task ran outside a perform call")
            t["s"], t["call"] = sim.seqno(), st[-1]
            calls[st[-1]]["ran"].append(t["id"])
            sim.count("performed")
            sim.log("run", t["id"])
            t["e"] = sim.seqno()

        def put(spec):
            tid = len(tasks)
            t = dict(id=tid, pb=sim.seqno(), pe=None, s=None, e=None, call=None)
            tasks.append(t)
            kind, children = spec

            def work():
                sim.check(t["s"] is None, "performed-twice", f"task {tid} was performed twice")
                st = stack.get(sim.current.tid)
                sim.check(st, "performed-elsewhere", f"task {tid} ran outside a perform call")
                t["s"], t["call"] = sim.seqno(), st[-1]
                calls[st[-1]]["ran"].append(tid)
                sim.count("performed")
                sim.log("run", tid)
                sim.point()
                if helper:
                    gate.wait()
                for c in children:
                    put(c)
                if kind == "p" and len(calls) < 30:
                    nested[0] = True
                    perform()
                t["e"] = sim.seqno()
                if kind == "x":
                    sim.count("fault.task_exception")
                    x = t["exc"] = InjectedBase(tid) if plan["base"] else Injected(tid)
                    raise x

            if plan["again"] and kind == "n":
                shared.append(t)
                q.put(same)
            else:
                q.put(Quiet(work) if tid % 4 == 3 else work)
            t["pe"] = sim.seqno()
            sim.log("put", tid)

        def perform():
            me = sim.current.tid
            cid = len(calls)
            c = dict(b=sim.seqno(), e=None, ran=[], exc=None, tid=me)
            calls.append(c)
            stack.setdefault(me, []).append(cid)
            try:
                q.perform_tasks()
            except (Injected, InjectedBase) as x:
                c["exc"] = x
            stack[me].pop()
            c["e"] = sim.seqno()
            sim.log("performed", cid, tuple(c["ran"]))
            if c["exc"] is not None:
                owner = tasks[c["exc"].args[0]]
                sim.check(owner.get("exc") is c["exc"], "wrong-exception", "perform raised an exception no task raised")
                if len(stack[me]):
                    raise c["exc"]  # nested: goes on to the outer performer
            for tid in c["ran"]:
                if tasks[tid].get("exc") is not None:
                    sim.check(c["exc"] is tasks[tid]["exc"], "swallowed-exception", f"task {tid} raised but its performer did not see it")

        def clear():
            b = sim.seqno()
            q.clear_tasks()
            clears.append((b, sim.seqno()))
            sim.count("clears")
            sim.log("clear")

        def client(ops):
            def go():
                for op in ops:
                    if op[0] == "put":
                        put(op[1])
                    elif op[0] == "perform":
                        perform()
                    elif op[0] == "clear":
                        clear()
                    elif op[0] == "join":
                        b = sim.seqno()
                        q.join()
                        joins.append((b, sim.seqno()))
                    sim.point()
            return go

        for op in plan["pre"]:
            put(op[1])
        from dsim.kit import spawn_all

        def helping():
            helper.append(1)
            for _ in range(plan["gate"]):
                put(["n", []])
            gate.set()
        ths = spawn_all(sim, [client(t["ops"]) for t in plan["threads"]] + ([helping] if plan["gate"] else []))
        joiners = [i for i, t in enumerate(plan["threads"]) if any(o[0] == "join" for o in t["ops"])]
        sim.join(*[t for i, t in enumerate(ths) if i not in joiners])
        drained = len(calls)
        for _ in range(200):
            if q.empty():
                break
            perform()
        sim.check(q.empty(), "not-drained", "performing does not empty the queue")
        b = sim.seqno()
        q.join()
        joins.append((b, sim.seqno()))
        sim.join(*ths)
        # --- verdict
        for t in tasks:
            if t["s"] is None:
                sim.check(any(e > t["pb"] for _, e in clears), "lost-task", f"task {t['id']} was neither performed nor cleared")
            else:
                sim.check(not any(t["pe"] < b and e < calls[t["call"]]["b"] for b, e in clears), "performed-cleared", f"task {t['id']} was performed although a clear made after it was queued had returned")
        for b, e in joins:
            for t in tasks:
                if t["pe"] is not None and t["pe"] < b and t["s"] is not None:
                    sim.check(t["s"] < e, "early-join", f"join returned before task {t['id']} was performed")
        for c in calls:
            if nested[0]:
                continue
            for i, x in enumerate(c["ran"]):
                for y in c["ran"][i + 1:]:
                    sim.check(not (tasks[y]["pe"] < tasks[x]["pb"]), "reordered", f"task {x} was performed before {y}, which was queued earlier")
            first = min([tasks[x]["s"] for x in c["ran"]], default=None)
            if first is not None:
                # what another thread performs in the meantime may have been pending too
                pending = [t["id"] for t in tasks if t["pb"] < first and (t["s"] is None or t["s"] >= (first if solo else c["b"]))]
                sim.check(len(c["ran"]) <= len(pending), "unbounded", f"one perform call performed {c['ran']}, pending when it began: {pending}")
            if solo and c["exc"] is None and not clears:
                left = [t["id"] for t in tasks if t["pe"] is not None and t["pe"] < c["b"] and (t["s"] is None or t["s"] > c["e"])]
                sim.check(not left, "left-behind", f"perform returned without performing {left}, queued before it began")
        if not nested[0]:
            done = [t for t in tasks if t["s"] is not None]
            for x in done:
                for y in done:
                    if x["pe"] < y["pb"] and calls[y["call"]]["e"] < calls[x["call"]]["b"]:
                        sim.fail("reordered", f"task {y['id']} was performed by an earlier call than {x['id']}, queued before it")
