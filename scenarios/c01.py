"""C01: firing reaches every attached listener exactly once, in order, under concurrency and garbage collection."""
import gc
import threading

from dsim.kit import ScenarioBase, run_all, weighted


class Cell:
    """Holds a token in a reference cycle: only the collector can drop it."""


class Empty:
    """a callable container that is empty"""

    def __init__(self, fn):
        self.fn = fn

    def __len__(self):
        return 0

    def __call__(self, *args, **kw):
        return self.fn(*args, **kw)


class Scenario(ScenarioBase):
    gc_faults = True
    stall_faults = False
    components = {"real": ["nion.utils.Event"], "stub": ["listener functions", "threads and locks (simulated)", "garbage collector timing (simulated)"]}
    rule = "A case is a seeded workload (1-4 threads attaching, closing, dropping and firing on one event) and a seeded schedule; non-trivial: at least one fire and two context switches or a collection."

    def gen(self, rng, tier):
        n = rng.choice((1, 2, 2, 3, 3, 4))
        nslots = rng.randrange(2, 7)
        table = [(rng.choice((1, 2, 4)), "attach"), (rng.choice((0, 1, 2)), "close"), (rng.choice((0, 1, 2)), "drop"), (rng.choice((0, 0, 1)), "cycle"),
                 (rng.choice((2, 4)), "fire"), (rng.choice((0, 0, 1)), "gc"), (rng.choice((0, 0, 1)), "with"), (rng.choice((0, 0, 1)), "fire2")]
        length = rng.choice((3, 5, 8)) if tier == "quick" else rng.choice((3, 6, 10, 16))
        pre = [["attach", i] for i in range(nslots) if rng.random() < 0.7]
        crowd = 0
        if rng.random() < 0.015:
            # many listeners; fewer of everything else
            crowd, n, length = rng.randrange(20, 140), rng.choice((1, 1, 2)), 3
        # what listeners do when called, by slot: most do nothing
        acts = {}
        for i in range(nslots):
            if rng.random() < 0.15:
                acts[str(i)] = [weighted(rng, [(2, "close"), (2, "drop"), (2, "attach"), (1, "refire")]), rng.randrange(nslots)]
        return dict(pre=pre, acts=acts, trace=rng.random() < 0.2, owned=[i for i in range(nslots) if rng.random() < 0.4] if rng.random() < 0.25 else [], weak=rng.random() < 0.15, empty=rng.random() < 0.1, crowd=crowd, twins=rng.choice((0, 0, 0, 2, 3)), gate=[[rng.choice(("attach", "attach", "close", "drop", "fire")), rng.randrange(nslots)] for _ in range(rng.randrange(1, 4))] if rng.random() < 0.1 else [],
                    threads=[dict(ops=[[weighted(rng, table), rng.randrange(nslots)] for _ in range(rng.randrange(1, length + 1))]) for _ in range(n)])

    def shrink_more(self, plan):
        from dsim.kit import clone
        for k in ("crowd", "twins"):
            for v in {0, plan[k] // 2, plan[k] - 1}:
                if 0 <= v < plan[k]:
                    c = clone(plan)
                    c[k] = v
                    yield c
        if plan["gate"]:
            c = clone(plan)
            c["gate"] = []
            yield c
        for k in list(plan["acts"]):
            c = clone(plan)
            del c["acts"][k]
            yield c
        for i in range(len(plan["pre"])):
            c = clone(plan)
            del c["pre"][i]
            yield c

    def nontrivial(self, plan, o):
        return o.stats.get("fires", 0) > 0 and (o.switches >= 2 or o.stats.get("fault.gc", 0) > 0)

    def run(self, sim, plan):
        event = self.m["Event"].Event(plan["trace"])
        slots = {}
        listeners = {}  # lid -> dict(ab, ae, db, ce)
        fires = {}
        acts = plan["acts"]
        depth = [0]
        owners = [Cell(), Cell()]  # alive all the time
        gate, helper = threading.Event(), []  # a listener may wait for another thread that uses the event

        def make(slot):
            lid = len(listeners)
            rec = listeners[lid] = dict(ab=sim.seqno(), ae=None, db=None, ce=None, slot=slot)
            me = {}

            def called(*args, **kw):
                f = fires.get(args[0]) if args else None
                if f is None:
                    sim.fail("bad-arguments", f"listener {lid} called with {args!r} {kw!r}")
                f["calls"].append((lid, sim.current.tid, args, tuple(sorted(kw.items())), sim.seqno()))
                sim.log("call", lid, args[0])
                if plan["gate"] and helper and sim.current.tid not in helper:
                    gate.wait()
                sim.point()
                a = acts.get(str(slot))
                if a and slot not in plan["owned"] and len(fires) < 40 and depth[0] < 3:
                    depth[0] += 1
                    do([{"refire": "fire"}.get(a[0], a[0]), a[1]])
                    depth[0] -= 1

            if plan["empty"] and lid % 2:
                called = Empty(called)
            token = event.listen(called, owner=owners[slot % 2]) if slot in plan["owned"] else event.listen(called)
            rec["ae"] = sim.seqno()
            return lid, token

        def do(op):
            kind, slot = op
            if kind == "attach":
                entry = make(slot)
                old = slots.get(slot)
                if old is not None:
                    listeners[old[0]]["db"] = listeners[old[0]]["db"] or sim.seqno()
                slots[slot] = entry
                del entry, old
            elif kind == "close":
                e = slots.get(slot)
                if e is not None:
                    rec = listeners[e[0]]
                    rec["db"] = rec["db"] or sim.seqno()
                    e[1].close()
                    rec["ce"] = rec["ce"] or sim.seqno()
            elif kind == "with":
                lid, token = make(slot)
                rec = listeners[lid]
                with token:
                    del token
                    do(["fire", slot])
                    rec["db"] = sim.seqno()
                rec["ce"] = sim.seqno()
            elif kind == "drop":
                e = slots.get(slot)
                if e is not None:
                    listeners[e[0]]["db"] = listeners[e[0]]["db"] or sim.seqno()
                    slots.pop(slot, None)
                    del e
                    sim.point()
            elif kind == "cycle":
                e = slots.get(slot)
                if e is not None:
                    listeners[e[0]]["db"] = listeners[e[0]]["db"] or sim.seqno()
                    c = Cell()
                    c.me = c
                    c.token = e[1]
                    slots.pop(slot, None)
                    del e, c
                    sim.point()
            elif kind == "gc":
                sim.count("fault.gc")
                gc.collect()
            elif kind in ("fire", "fire2"):
                fid = len(fires)
                f = fires[fid] = dict(b=sim.seqno(), e=None, calls=[], tid=sim.current.tid, ts=sim.threads[sim.current.tid])
                sim.count("fires")
                sim.log("fire", fid)
                if kind == "fire":
                    f["args"] = (fid,), ()
                    event.fire(fid)
                else:
                    f["args"] = (fid, "x", None), (("key", fid), ("none", None), ("other", slot))
                    event.fire(fid, "x", None, key=fid, other=slot, none=None)
                f["e"] = sim.seqno()
                sim.log("fired", fid)

        for op in plan["pre"]:
            do(op)
        keep = []

        class Method:
            def called(self, *args, **kw):
                """one method listening several times, each time as a listener of its own; never closed"""
                f = fires[args[0]]
                f["turn"] = f.get("turn", 0) + 1
                lid = twins[min(f["turn"], len(twins)) - 1] if f["turn"] <= len(twins) else twins[0]
                f["calls"].append((lid, sim.current.tid, args, tuple(sorted(kw.items())), sim.seqno()))

        twin, twins = Method(), []
        for _ in range(plan["twins"]):
            lid = len(listeners)
            rec = listeners[lid] = dict(ab=sim.seqno(), ae=None, db=None, ce=None, slot=None)
            keep.append(event.listen(twin.called))
            rec["ae"] = sim.seqno()
            twins.append(lid)
        for i in range(plan["crowd"]):
            keep.append(make(100 + i))

        def client(ops):
            def go():
                for op in ops:
                    do(op)
                    sim.point()
            return go

        def helping():
            helper.append(sim.current.tid)
            for op in plan["gate"]:
                do(op)
            gate.set()

        run_all(sim, [client(t["ops"]) for t in plan["threads"]] + ([helping] if plan["gate"] else []))
        do(["fire", 0])
        self.verdict(sim, listeners, fires)

    def verdict(self, sim, listeners, fires):
        for fid, f in fires.items():
            seen = {}
            for lid, tid, args, kw, seq in f["calls"]:
                sim.check(tid == f["tid"], "wrong-thread", f"fire {fid} on thread {f['tid']} called listener {lid} on thread {tid}")
                sim.check((args, kw) == f["args"], "bad-arguments", f"fire {fid} passed {args} {kw} to listener {lid}, fired {f['args']}")
                sim.check(f["b"] < seq < f["e"], "not-synchronous", f"listener {lid} called outside fire {fid}")
                sim.check(lid not in seen, "called-twice", f"fire {fid} called listener {lid} twice")
                seen[lid] = seq
                rec = listeners[lid]
                sim.check(rec["ce"] is None or rec["ce"] > f["b"], "called-after-close", f"fire {fid} began after listener {lid} was closed, yet called it")
            for lid, rec in listeners.items():
                if rec["ae"] is not None and rec["ae"] < f["b"] and (rec["db"] is None or rec["db"] > f["e"]):
                    sim.check(lid in seen, "missed-listener", f"fire {fid} did not call listener {lid}, attached throughout")
            order = [c[0] for c in f["calls"]]
            for i, a in enumerate(order):
                for b in order[i + 1:]:
                    sim.check(not listeners[b]["ae"] < listeners[a]["ab"], "wrong-order", f"fire {fid} called listener {a} before {b}, which was attached earlier")
