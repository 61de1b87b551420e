"""C03: a listener lives exactly as long as its token or its owner."""
import gc
import weakref

from dsim.kit import Injected, ScenarioBase, run_all, weighted


class Owner:
    pass


class FalseOwner:
    def __bool__(self):
        return False


class EmptyOwner:
    def __len__(self):
        return 0


OWNERS = {"o": Owner, "f": FalseOwner, "e": EmptyOwner}


class Fn:
    """A listener function that can be weakly referenced."""

    def __init__(self, cb):
        self.cb = cb

    def __call__(self, *args):
        return self.cb(*args)


class FalseFn(Fn):
    """a callable container that is empty"""

    def __len__(self):
        return 0


class Scenario(ScenarioBase):
    gc_faults = True
    stall_faults = False
    components = {"real": ["nion.utils.Event"], "stub": ["listener functions", "owners", "threads and locks (simulated)", "garbage collector timing (simulated)"]}
    rule = "A case is a seeded workload (1-3 threads attaching with and without owners, closing, dropping tokens and owners, in and out of reference cycles, firing two events) and a seeded schedule with collections; non-trivial: at least one token or owner died and one fire happened."

    def gen(self, rng, tier):
        table = [(rng.choice((1, 2)), "attach"), (rng.choice((1, 2)), "own"), (rng.choice((0, 1)), "ownhold"), (rng.choice((0, 1)), "close"), (rng.choice((0, 0, 1)), "closewith"), (rng.choice((1, 2)), "drop"),
                 (rng.choice((0, 1)), "dropcycle"), (rng.choice((0, 1, 2)), "disown"), (rng.choice((0, 1)), "disowncycle"), (rng.choice((2, 3)), "fire"), (rng.choice((0, 1)), "gc")]
        nthreads = rng.choice((1, 1, 2, 2, 3))
        length = rng.choice((4, 8, 12))
        owners = [weighted(rng, [(4, "o"), (1, "f"), (1, "e")]) for _ in range(3)]
        return dict(falsefn=rng.random() < 0.1, owners=owners, threads=[dict(ops=[[weighted(rng, table), rng.randrange(5), rng.randrange(2), rng.randrange(3)] for _ in range(rng.randrange(2, length + 1))]) for _ in range(nthreads)])

    def nontrivial(self, plan, o):
        return o.stats.get("deaths", 0) > 0 and o.stats.get("fires", 0) > 0

    def run(self, sim, plan):
        events = [self.m["Event"].Event() for _ in range(2)]
        concurrent = len(plan["threads"]) > 1
        recs = []
        tokens = {}
        owners = {}
        owner_n = [0]
        live_owners = set()
        fires = []
        active = [0]

        def new_owner(i):
            if i not in owners:
                owner_n[0] += 1
                live_owners.add(owner_n[0])
                owners[i] = (OWNERS[plan["owners"][i]](), owner_n[0])
            return owners[i]

        def called_by(lid, ev, fid):
            sim.check(fid is not None, "bad-call", "")
            fires[fid]["calls"].append(lid)
            sim.log("call", lid, fid)
            sim.point()

        def attach(slot, ev, owner=None, hold=True):
            lid = len(recs)
            rec = dict(lid=lid, ev=ev, ae=None, token=False, tb=None, closed_b=None, closed_e=None, gone=None, owner=None, fn=None)
            recs.append(rec)
            fn = (FalseFn if plan["falsefn"] and lid % 2 else Fn)(lambda fid, lid=lid, ev=ev: called_by(lid, ev, fid))
            rec["fn"] = weakref.ref(fn)
            if owner is None:
                t = events[ev].listen(fn)
            else:
                o, on = new_owner(owner)
                rec["owner"] = on
                active[0] += 1
                t = events[ev].listen(fn, owner=o)
                del o
                active[0] -= 1
            del fn
            rec["token"] = True
            if hold:
                old = tokens.get(slot)
                tokens[slot] = (lid, t)
                if old is not None:
                    r = recs[old[0]]
                    if r["owner"] is None:
                        r["tb"] = r["tb"] or sim.seqno()
                    del old
                    r["token"] = False
            else:
                rec["token"] = False
            del t
            rec["ae"] = sim.seqno()
            settle()

        # a listener is over when its token was closed, or its owner died, or (no owner) its token died
        def settle():
            now = sim.seqno()
            for r in recs:
                if r["ae"] is None:
                    continue
                if r["gone"] is None:
                    dead_owner = r["owner"] is not None and r["owner"] not in live_owners
                    if dead_owner or (r["owner"] is None and not r["token"]):
                        r["gone"] = now
                        # it may linger only through a cycle or a fire in progress on another thread
                        r["exact"] = not r.get("cycle") and active[0] == 0 and not (dead_owner and r.get("ocycle"))
                        sim.count("deaths")

        def begin_gone(pred):
            now = sim.seqno()
            for r in recs:
                if r["tb"] is None and pred(r):
                    r["tb"] = now

        def release(slot, cycle=False):
            e = tokens.get(slot)
            if e is None:
                return
            r = recs[e[0]]
            if r["owner"] is None:
                r["tb"] = r["tb"] or sim.seqno()
            if cycle:
                r["cycle"] = True
                c = Owner()
                c.me, c.token = c, e[1]
                del c
            tokens.pop(slot, None)
            del e
            r["token"] = False
            settle()

        def do(op):
            kind, slot, ev, ow = op
            if kind == "attach":
                attach(slot, ev)
            elif kind == "own":
                attach(slot, ev, owner=ow, hold=False)
            elif kind == "ownhold":
                attach(slot, ev, owner=ow)
            elif kind in ("close", "closewith"):
                e = tokens.get(slot)
                if e is not None:
                    r = recs[e[0]]
                    r["tb"] = r["tb"] or sim.seqno()
                    active[0] += 1
                    if kind == "closewith":
                        # the token as a context; its body ends, or fails
                        try:
                            with e[1] as token:
                                sim.check(token is e[1], "bad-context", "the context is not the token")
                                if ow:
                                    raise Injected("body")
                        except Injected:
                            sim.count("fault.body")
                        else:
                            sim.check(not ow, "swallowed-exception", "the exception of the body disappeared")
                        token = None
                    else:
                        e[1].close()
                    active[0] -= 1
                    r["closed_e"] = r["closed_e"] or sim.seqno()
                    del e
            elif kind == "drop":
                release(slot)
            elif kind == "dropcycle":
                release(slot, True)
            elif kind in ("disown", "disowncycle"):
                e = owners.get(ow)
                if e is not None:
                    on = e[1]
                    begin_gone(lambda r: r["owner"] == on)
                    if kind == "disowncycle":
                        for r in recs:
                            if r["owner"] == on:
                                r["ocycle"] = True
                        try:
                            e[0].me = e[0]
                        except AttributeError:
                            pass
                    owners.pop(ow, None)
                    del e
                    live_owners.discard(on)
                    settle()
            elif kind == "gc":
                sim.count("fault.gc")
                gc.collect()
            elif kind == "fire":
                fid = len(fires)
                f = dict(b=sim.seqno(), e=None, calls=[], ev=ev)
                fires.append(f)
                sim.count("fires")
                active[0] += 1
                events[ev].fire(fid)
                active[0] -= 1
                f["e"] = sim.seqno()

        def client(ops):
            def go():
                for op in ops:
                    do(op)
                    if not concurrent:
                        quiet(False)
                    sim.point()
            return go

        def quiet(collected):
            for ev in range(2):
                mine = [r for r in recs if r["ev"] == ev and r["ae"] is not None]
                must = [r["lid"] for r in mine if r["gone"] is None and r["closed_e"] is None]
                may = [r["lid"] for r in mine if r["gone"] is None or r["token"] or (not collected and (not r.get("exact") or r.get("cycle")))]
                n = events[ev].listener_count
                sim.check(len(must) <= n <= len(may), "listener-count", lambda: f"event {ev} counts {n} listeners; attached: {must}; could still exist: {may}")
            for r in recs:
                if r["closed_e"] is not None and not (concurrent and not collected):
                    sim.check(r["fn"]() is None, "retained", lambda: f"function of listener {r['lid']} is still retained although its token was closed")
                if r["gone"] is not None and not r["token"] and (collected or (r.get("exact") and not r.get("cycle"))):
                    sim.check(r["fn"]() is None, "retained", lambda: f"function of listener {r['lid']} is still retained although its token{' and owner are' if r['owner'] else ' is'} gone")

        run_all(sim, [client(t["ops"]) for t in plan["threads"]])
        gc.collect()
        for ev in range(2):
            do(["fire", 0, ev, 0])
        quiet(True)
        for fid, f in enumerate(fires):
            names = f["calls"]
            sim.check(len(set(names)) == len(names), "called-twice", f"fire {fid}: {names}")
            for r in recs:
                if r["ev"] != f["ev"] or r["ae"] is None:
                    sim.check(r["lid"] not in names or r["ev"] == f["ev"], "wrong-event", f"fire {fid}: {names}")
                    continue
                if r["lid"] in names:
                    sim.check(r["closed_e"] is None or r["closed_e"] > f["b"], "called-after-close", f"fire {fid} called listener {r['lid']}, closed before")
                    if r["gone"] is not None and (r.get("exact") or fid >= len(fires) - 2):
                        sim.check(r["gone"] > f["b"], "called-after-death", f"fire {fid} called listener {r['lid']} although its {'owner' if r['owner'] else 'token'} was gone")
                elif r["ae"] < f["b"] and (r["tb"] is None or r["tb"] > f["e"]):
                    sim.fail("missed-listener", f"fire {fid} did not call listener {r['lid']} ({'owner' if r['owner'] else 'token'} alive throughout)")
        # everything goes: nothing may be left
        tokens.clear()
        owners.clear()
        gc.collect()
        for ev in range(2):
            sim.check(events[ev].listener_count == 0, "listener-count", f"event {ev} still counts {events[ev].listener_count} listeners after every token and owner is gone")
        for r in recs:
            sim.check(r["fn"]() is None, "retained", f"function of listener {r['lid']} is retained after every token and owner is gone")
