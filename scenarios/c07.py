"""C07: task set: only the latest task per key, none lost."""
import threading

from dsim.kit import Injected, InjectedBase, ScenarioBase, run_all, weighted


KEYS = (1, "1", None, "", ("1",), 0, "0", 1.5)  # all different


class Quiet(list):
    """a callable task that is false in a condition"""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __call__(self):
        self.fn()


class Scenario(ScenarioBase):
    stall_faults = False
    components = {"real": ["nion.utils.Process.TaskSet"], "stub": ["tasks (scripted)", "threads and locks (simulated)"]}
    rule = "A case is a seeded workload of threads adding, clearing and performing keyed tasks (some failing, some adding) and a seeded schedule; non-trivial: at least one task performed."

    def gen(self, rng, tier):
        keys = rng.randrange(1, 5)
        px, pa, pc = rng.choice((0, 0.15, 0.4)), rng.choice((0, 0.2, 0.4)), rng.choice((0, 0, 0.15))

        def task(depth=0):
            r = rng.random()
            if r < px:
                return ["x", None]
            if r < px + pa and depth < 2:
                return ["a", [rng.randrange(keys), task(depth + 1)]]
            if r < px + pa + pc:
                return ["c", rng.randrange(keys)]
            return ["n", None]
        table = [(rng.choice((2, 4)), "add"), (rng.choice((0, 1)), "clear"), (rng.choice((1, 2)), "perform")]

        def op():
            k = weighted(rng, table)
            return [k, rng.randrange(keys), task(), rng.random() < 0.2] if k == "add" else [k, rng.randrange(keys)]
        n = rng.choice((1, 1, 2, 2, 3))
        gate = [[k, rng.randrange(keys), ["n", None], False][:4 if k == "add" else 2] for k in (rng.choice(("add", "add", "clear", "perform")) for _ in range(rng.randrange(1, 4)))] if rng.random() < 0.1 else []
        return dict(gate=gate, hard=rng.random() < 0.2, base=rng.choice((None, 0, 2, 4, 5)), threads=[dict(ops=[op() for _ in range(rng.randrange(1, 8 if n == 1 else 5))]) for _ in range(n)], pre=[["add", rng.randrange(keys), task(), rng.random() < 0.2] for _ in range(rng.randrange(4))])

    shrink_lists = ("threads", "ops", "pre", "gate")

    def nontrivial(self, plan, o):
        return o.stats.get("performed", 0) > 0

    def run(self, sim, plan):
        ts = self.m["Process"].TaskSet()
        tasks = []
        changes = []  # (b, e, key, task id or None)
        performs = []
        stack = {}
        gate, helper = threading.Event(), []  # a task may wait for another thread that uses the set

        def named(key):
            return f"key{key}" if plan["base"] is None else KEYS[(plan["base"] + key) % len(KEYS)]

        def add(key, spec, falsy=False):
            t = dict(id=len(tasks), key=key, b=sim.seqno(), e=None, s=None, call=None, exc=None)
            tasks.append(t)

            def work():
                sim.check(t["s"] is None, "performed-twice", f"task {t['id']} ran twice")
                st = stack.get(sim.current.tid)
                sim.check(st is not None, "performed-elsewhere", f"task {t['id']} ran outside a perform call")
                t["s"], t["call"] = sim.seqno(), st
                sim.count("performed")
                sim.log("run", t["id"])
                sim.point()
                if helper and sim.current.tid not in helper:
                    gate.wait()
                if spec[0] == "a":
                    add(*spec[1])
                elif spec[0] == "c":
                    clear(spec[1])
                elif spec[0] == "x":
                    sim.count("fault.task_exception")
                    t["exc"] = InjectedBase(t["id"]) if plan["hard"] else Injected(t["id"])
                    raise t["exc"]
            ts.add_task(named(key), Quiet(work) if falsy else work)
            t["e"] = sim.seqno()
            changes.append((t["b"], t["e"], key, t["id"]))
            sim.log("add", key, t["id"])

        def clear(key):
            b = sim.seqno()
            ts.clear_task(named(key))
            changes.append((b, sim.seqno(), key, None))
            sim.log("clear", key)

        def perform():
            me = sim.current.tid
            c = dict(b=sim.seqno(), e=None, exc=None)
            performs.append(c)
            stack[me] = len(performs) - 1
            try:
                ts.perform_tasks()
            except (Injected, InjectedBase) as x:
                c["exc"] = x
            n = stack.pop(me)
            c["e"] = sim.seqno()
            for t in tasks:
                if t["call"] == n and t["exc"] is not None:
                    sim.check(c["exc"] is t["exc"], "swallowed-exception", f"task {t['id']} raised but its performer did not see it")
            if c["exc"] is not None:
                sim.check(tasks[c["exc"].args[0]]["call"] == n, "wrong-exception", "a performer saw the exception of a task it did not run")

        def do(op):
            {"add": lambda: add(*op[1:]), "clear": lambda: clear(op[1]), "perform": perform}[op[0]]()

        def client(ops):
            def go():
                for op in ops:
                    do(op)
                    sim.point()
            return go

        for op in plan["pre"]:
            do(op)
        def helping():
            helper.append(sim.current.tid)
            client(plan["gate"])()
            gate.set()

        run_all(sim, [client(t["ops"]) for t in plan["threads"]] + ([helping] if plan["gate"] else []))
        for _ in range(60):
            n = sum(1 for t in tasks if t["s"] is not None)
            perform()
            if n == sum(1 for t in tasks if t["s"] is not None):
                break
        for t in tasks:
            others = [c for c in changes if c[2] == t["key"] and c[3] != t["id"]]
            if t["s"] is None:
                sim.check(any(c[1] > t["b"] for c in others), "lost-task", f"task {t['id']} of key {t['key']} was neither run, replaced nor cleared")
                continue
            p = performs[t["call"]]
            gone = [c for c in others if c[0] > t["e"] and c[1] < p["b"]]
            sim.check(not gone, "stale-task", lambda: f"task {t['id']} of key {t['key']} ran although it had been {'cleared' if gone[0][3] is None else 'replaced'} before that perform call")
        for p in performs:
            if p["exc"] is not None:
                continue
            for t in tasks:
                if t["e"] < p["b"] and (t["s"] is None or t["s"] > p["e"]) and not any(c[1] > t["b"] and c[0] < p["e"] for c in changes if c[2] == t["key"] and c[3] != t["id"]):
                    # it may be in the hands of another performer at this moment
                    if t["s"] is not None and performs[t["call"]]["b"] < p["e"]:
                        continue
                    sim.fail("left-behind", f"perform returned without running task {t['id']} of key {t['key']}")
