"""C21: the component registry agrees with its history and its announcements."""
from collections import Counter

from dsim import world
from dsim.kit import Hashed, Injected, ScenarioBase, run_all, weighted

TYPES = ("ta", "tb", "tc")


class Component(Hashed):
    def __init__(self, h, priority, cid, tid):
        super().__init__(h)
        if priority is not None:
            self.priority = priority
        self.cid = cid
        self.tid = tid
        self.level = 50 if priority is None else priority


class Scenario(ScenarioBase):
    stall_faults = False
    components = {"real": ["nion.utils.Registry", "nion.utils.Event"], "stub": ["components (simulated hashes)", "observers (scripted: failing, registering and unregistering themselves)", "threads (simulated)"]}
    rule = "A case is a seeded history of registrations, unregistrations and lookups by 1-3 threads, each with components of its own, observers that fail or act themselves, seeded set orders and a seeded schedule; non-trivial: at least one announcement reached an observer."

    def gen(self, rng, tier):
        n = weighted(rng, [(3, 1), (2, 2), (1, 3)])
        length = rng.choice((4, 8, 14)) if n == 1 else rng.choice((3, 5, 8))
        table = [(4, "register"), (3, "unregister"), (1.5, "unregister-all"), (2, "lookup"), (2, "get"), (0.7, "teardown"), (0.5, "refused")]
        if n == 1:
            table.append((1, "existing"))

        def types():
            k = rng.choice((1, 1, 2, 3))
            return sorted(rng.sample(TYPES, k))
        threads = [dict(ops=[[weighted(rng, table), rng.randrange(4), types(), rng.choice(TYPES)] for _ in range(rng.randrange(2, length + 1))]) for _ in range(n)]
        comps = [[[rng.randrange(64), rng.choice((None, None, 0, 10, 50, 51, 90, 100))] for _ in range(4)] for _ in range(n)]
        pf = rng.choice((0, 0, 0.2))
        pr = rng.choice((0, 0, 0.2, 0.5))
        observers = []
        for _ in range(rng.randrange(0, 4)):
            acts = []
            for _ in range(6):
                x = rng.random()
                if x < pf:
                    acts.append(["raise"])
                elif x < pf + pr:
                    acts.append([rng.choice(("nested-register", "nested-unregister", "undo", "nested-get")), rng.randrange(4), types()])
                else:
                    acts.append(None)
            observers.append(acts)
        return dict(single=n == 1, threads=threads, comps=comps, observers=observers)

    def nontrivial(self, plan, o):
        return o.stats.get("announced", 0) > 0

    def run(self, sim, plan):
        R = world.fresh_module("nion.utils.Registry")
        comps = [[Component(h, p, j, i) for j, (h, p) in enumerate(cs)] for i, cs in enumerate(plan["comps"])]
        everything = [c for cs in comps for c in cs]
        model = {}       # (component, type) -> [registered?, seqno of the last completed change, change in progress?]
        single = len(plan["threads"]) == 1
        for c in everything:
            for t in TYPES:
                model[c, t] = [False, 0, 0]
        expected = Counter()
        got = [Counter() for _ in plan["observers"]]
        mirror = [set() for _ in plan["observers"]]
        muddled = set()  # components changed again while being announced: order of announcements not asserted
        existing = []    # running fire_existing operations: (type, touched)
        calls = [0] * len(plan["observers"])
        busy = {}        # component -> operations in progress
        depth = Counter()
        name = {c: f"c{c.tid}.{c.cid}" for c in everything}

        def certain(c, t, begin):
            m = model[c, t]
            return not m[2] and m[1] <= begin

        def lookup(t):
            begin = sim.seqno()
            res = R.get_components_by_type(t)
            found = list(res)
            sim.check(len(found) == len(set(found)), "wrong-lookup", "a component is found twice")
            tid = sim.current.tid
            for c in everything:
                m = model[c, t]
                if certain(c, t, begin) or owner(c):
                    sim.check((c in found) == m[0], "wrong-lookup", lambda: f"{name[c]} is {'registered' if m[0] else 'not registered'} under {t} but lookup {'finds' if c in found else 'does not find'} it")
            sim.check(all(c in everything for c in found), "wrong-lookup", "an unknown object is found")
            sim.log("lookup", t, len(found))
            return res

        def get(t):
            begin = sim.seqno()
            c = R.get_component(t)
            sure = [x for x in everything if certain(x, t, begin) and model[x, t][0]]
            if c is None:
                sim.check(not sure, "wrong-component", lambda: f"no component of {t} although {name[sure[0]]} is registered")
            else:
                sim.check(c in everything and not (certain(c, t, begin) and not model[c, t][0]), "wrong-component", lambda: f"a component not registered under {t} was returned")
                best = max((x.level for x in sure), default=-1)
                sim.check(c.level >= best, "wrong-priority", lambda: f"a component of priority {c.level} was returned although one of {best} is registered under {t}")
            sim.log("get", t, name.get(c))

        def owner(c):
            return me.get(sim.current.tid) == c.tid

        me = {}

        def change(c, types, kind, do):
            """One registration or unregistration expected to succeed."""
            types = frozenset(types)
            if busy.get(c):
                muddled.add(c)
            busy[c] = busy.get(c, 0) + 1
            for e in existing:
                if e[0] in types:
                    e[1].add(c)
            for t in types:
                model[c, t][0] = kind == "register"
                model[c, t][2] += 1
            expected[kind, c, types] += 1
            sim.log(kind, name[c], *sorted(types))
            do()
            now = sim.seqno()
            for t in types:
                model[c, t][1] = now
                model[c, t][2] -= 1
            busy[c] -= 1
            settle(c)

        def register(c, types):
            types = {t for t in types if not model[c, t][0]}
            if not types:
                return
            mine = set(types)

            def do():
                R.register_component(c, mine)
            change(c, types, "register", do)
            mine.add("other")  # the caller's set stays the caller's

        def unregister(c, types):
            if types is None:
                types = {t for t in TYPES if model[c, t][0]}
                if types:
                    change(c, types, "unregister", lambda: R.unregister_component(c))
                return
            types = {t for t in types if model[c, t][0]}
            if types:
                change(c, types, "unregister", lambda: R.unregister_component(c, set(types)))

        def settle(c):
            """The announcements for c are complete once no operation on c is in progress."""
            if busy.get(c) or depth[c.tid] or not tokens:
                return
            for i, g in enumerate(got):
                for kind in ("register", "unregister"):
                    have = sorted((sorted(k[2]), n) for k, n in g.items() if k[0] == kind and k[1] is c)
                    want = sorted((sorted(k[2]), n) for k, n in expected.items() if k[0] == kind and k[1] is c)
                    if have != want:
                        sim.fail("wrong-announcement", f"observer {i} was told of the {kind}ations of {name[c]} {have}, there were {want}")
                if c not in muddled:
                    for t in TYPES:
                        sim.check(((c, t) in mirror[i]) == model[c, t][0], "wrong-mirror", lambda: f"observer {i} cannot tell from the announcements whether {name[c]} is registered under {t}")

        def refused(c, types, how):
            held = {t for t in types if model[c, t][0]}
            snapshot = [sum(g.values()) for g in got]
            want_fail = False
            try:
                if how and held and len(held) < len(types):
                    want_fail = True
                    R.unregister_component(c, set(types))
                elif held and len(held) < len(types) or held and single:
                    want_fail = True
                    R.register_component(c, set(types))
                elif not any(model[c, t][0] for t in TYPES):
                    want_fail = True
                    R.unregister_component(c)
                else:
                    want_fail = bool(set(types) - held)
                    if want_fail:
                        R.unregister_component(c, set(types))
            except Exception:
                if not want_fail:
                    raise
                sim.count("fault.refused")
            else:
                sim.check(not want_fail, "not-refused", "a wrong registration or unregistration was accepted")
            if single:
                sim.check(snapshot == [sum(g.values()) for g in got], "wrong-announcement", "a refused registration was announced")
            for t in TYPES:
                lookup(t)

        def observer(i, kind):
            def told(c, types):
                k = calls[i]
                calls[i] += 1
                sim.count("announced")
                sim.check(c in everything, "wrong-announcement", "an announcement names no component")
                types = frozenset(types)
                if existing and kind == "register" and not busy.get(c) and types == frozenset([existing[-1][0]]):
                    existing[-1][2][i, c] += 1
                else:
                    got[i][kind, c, types] += 1
                if c not in muddled:
                    for t in types:
                        (mirror[i].add if kind == "register" else mirror[i].discard)((c, t))
                for t in TYPES:
                    if owner(c):
                        sim.check((c in set(R.get_components_by_type(t))) == model[c, t][0], "not-in-effect", lambda: f"{name[c]} was announced before the change took effect")
                sim.point()
                acts = plan["observers"][i]
                act = acts[k] if k < len(acts) else None
                if act is None or not owner(c):
                    return
                if act[0] == "raise":
                    sim.count("fault.observer_exception")
                    raise Injected("observer")
                if depth[c.tid] > 3:
                    return
                depth[c.tid] += 1
                try:
                    other = comps[c.tid][act[1]]
                    sim.count("fault.reentrant_observer")
                    if act[0] == "nested-register":
                        register(other, act[2])
                    elif act[0] == "nested-unregister":
                        unregister(other, act[2])
                    elif act[0] == "undo":
                        (unregister if kind == "register" else register)(c, types)
                    else:
                        get(act[2][0])
                finally:
                    depth[c.tid] -= 1
            return told

        tokens = []

        def attach():
            for i in range(len(plan["observers"])):
                tokens.append(R.listen_component_registered_event(observer(i, "register")))
                tokens.append(R.listen_component_unregistered_event(observer(i, "unregister")))

        def client(i, ops):
            def go():
                me[sim.current.tid] = i
                for k, j, types, t in ops:
                    c = comps[i][j]
                    if k == "register":
                        register(c, types)
                    elif k == "unregister":
                        unregister(c, types)
                    elif k == "unregister-all":
                        unregister(c, None)
                    elif k == "lookup":
                        lookup(t)
                    elif k == "get":
                        get(t)
                    elif k == "refused":
                        refused(c, types, t != TYPES[0])
                    elif k == "teardown":
                        # the natural way to remove everything of one type
                        for x in R.get_components_by_type(t):
                            if x.tid == i:
                                unregister(x, {t})
                    elif k == "existing":
                        here = [x for x in everything if model[x, t][0]]
                        rec = [t, set(), Counter()]
                        existing.append(rec)
                        R.fire_existing_component_registered_events(t)
                        existing.pop()
                        for o in range(len(got)):
                            for x in everything:
                                if x in rec[1]:
                                    muddled.add(x)
                                    continue
                                want = 1 if x in here else 0
                                sim.check(rec[2][o, x] == want, "wrong-announcement", lambda: f"observer {o} was told {rec[2][o, x]} times of the existing component {name[x]}, expected {want}")
                    for x in comps[i]:
                        settle(x)
                    sim.point()
            return go

        if single or plan["comps"][0][0][0] % 2:
            attach()
        run_all(sim, [client(i, t["ops"]) for i, t in enumerate(plan["threads"])])
        me[sim.current.tid] = None
        for t in TYPES:
            lookup(t)
            get(t)
        if tokens:
            for c in everything:
                settle(c)
