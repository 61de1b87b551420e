"""C04: reference counts are exact (linearizable) and finalisation happens exactly once."""
from dsim.kit import Injected, InjectedBase, ScenarioBase, linearizable, run_all, weighted


class FinalFailed(Exception):
    pass


class Scenario(ScenarioBase):
    stall_faults = False
    components = {"real": ["nion.utils.ReferenceCounting"], "stub": ["about_to_delete of the subclass", "threads and locks (simulated)"]}
    rule = "A case is a seeded workload (1-4 threads adding, removing and scoping references, some bodies failing) and a seeded schedule, checked for linearizability against a counter; non-trivial: the count was changed by two threads or finalisation happened."

    def gen(self, rng, tier):
        table = [(rng.choice((1, 3)), "add"), (rng.choice((1, 3)), "remove"), (rng.choice((0, 1)), "unchecked"), (rng.choice((0, 1, 2)), "with"), (rng.choice((0, 1)), "withraise"), (rng.choice((0, 0, 1)), "nest"), (rng.choice((0, 1)), "count"), (rng.choice((0, 0, 1)), "make")]
        n = rng.choice((1, 2, 2, 3, 3, 4))
        return dict(initial=rng.choice((0, 1, 1, 2)), slow=rng.randrange(3), final=rng.choice(("", "", "", "raise", "refs", "count")), hard=rng.random() < 0.3,
                    threads=[dict(ops=[weighted(rng, table) for _ in range(rng.randrange(1, 5 if n < 3 else 4))]) for _ in range(n)])

    def nontrivial(self, plan, o):
        return o.switches >= 2 or o.stats.get("finalised", 0) > 0

    def run(self, sim, plan):
        ops = []
        finals = []
        current = {}

        class Obj(self.m["ReferenceCounting"].ReferenceCounted):
            def about_to_delete(self):
                sim.count("finalised")
                sim.log("finalise")
                finals.append(sim.current.tid)
                cur = current.get(sim.current.tid)
                sim.check(cur is not None, "finalised-elsewhere", "about_to_delete on a thread that is not removing a reference")
                cur["final"] = True
                at = sim.seqno()
                ops.append((at, sim.seqno(), "count", 0))  # never while references remain
                for _ in range(plan["slow"]):
                    sim.point()
                if plan["final"] == "refs":
                    # the last owner's clean-up may itself pass the object around
                    for _ in range(2):
                        b = sim.seqno()
                        self.add_ref()
                        ops.append((b, sim.seqno(), "add", "ok"))
                        b = sim.seqno()
                        try:
                            self.remove_ref()
                            r = "ok"
                        except Exception:
                            r = "refused"
                        ops.append((b, sim.seqno(), "remove", r))
                if plan["final"] == "count" and len(plan["threads"]) == 1:
                    sim.check(self.ref_count == 0, "finalised-early", lambda: f"about_to_delete while the count is {self.ref_count}")
                if plan["final"] == "raise":
                    sim.count("fault.finaliser_exception")
                    raise FinalFailed()

        obj = Obj()

        def record(op, fn):
            me = sim.current.tid
            cur = current[me] = dict(final=False)
            b = sim.seqno()
            try:
                r = fn()
            except FinalFailed:
                r = None
                sim.check(cur["final"], "wrong-exception", "")
            except Exception as e:  # refused
                r = "refused"
            e = sim.seqno()
            current[me] = None
            if op == "add":
                r = "refused" if r == "refused" else "ok"
            elif op != "count":
                r = "refused" if r == "refused" else "final" if cur["final"] else "ok"
            if op != "remove":
                sim.check(not cur["final"], "finalised-elsewhere", f"about_to_delete during {op}")
            ops.append((b, e, op, r))
            sim.log(op, r)

        def scope(fail, depth=0, manager=None):
            # the scope is an addition and a removal, whatever the body does, also when it is entered again inside itself
            me = sim.current.tid
            manager = manager or obj.ref()
            b1 = sim.seqno()
            try:
                with manager:
                    ops.append((b1, sim.seqno(), "add", "ok"))
                    sim.point()
                    if depth:
                        scope(fail, depth - 1, manager)
                        record("count", lambda: obj.ref_count)
                    cur = current[me] = dict(final=False)
                    b2 = sim.seqno()
                    if fail:
                        raise InjectedBase("body") if plan["hard"] else Injected("body")
            except (Injected, InjectedBase):
                sim.check(fail, "wrong-exception", "")
            except FinalFailed:
                sim.check(cur["final"] is True, "wrong-exception", "")
            except Exception as e:
                # another thread took the reference away: the removal is refused
                cur["final"] = "refused"
            else:
                sim.check(not fail, "swallowed-exception", "the exception of the body of a scope disappeared")
            current[me] = None
            ops.append((b2, sim.seqno(), "remove", "refused" if cur["final"] == "refused" else "final" if cur["final"] else "ok"))

        def client(script):
            def go():
                for op in script:
                    if op == "add":
                        record("add", obj.add_ref)
                    elif op == "remove":
                        record("remove", obj.remove_ref)
                    elif op == "unchecked":
                        record("unchecked", lambda: obj.remove_ref(False))
                    elif op == "count":
                        record("count", lambda: obj.ref_count)
                    elif op == "make":
                        obj.ref()  # a scope that is not entered is not a reference
                    else:
                        scope(op == "withraise", 1 if op == "nest" else 0)
                    sim.point()
            return go

        for _ in range(plan["initial"]):
            record("add", obj.add_ref)
        run_all(sim, [client(t["ops"]) for t in plan["threads"]])
        record("count", lambda: obj.ref_count)
        sim.check(len(finals) <= 1, "finalised-twice", f"about_to_delete ran {len(finals)} times")

        def apply(state, op):
            n, active = state
            if op == "add":
                return "ok", (n + 1, active)
            if op == "count":
                return n, state
            if n == 0:
                return "refused", state
            if n == 1 and active and op == "remove":
                return "final", (0, False)
            return "ok", (n - 1, active)

        sim.check(linearizable(ops, (0, True), apply), "not-linearizable", lambda: f"no order of these operations explains their results: {ops}")
