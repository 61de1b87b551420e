"""C17: a filtered list is the filtered, ordered source, also under concurrent change and failing functions."""
import random

from dsim.kit import Injected, ScenarioBase, run_all, weighted

FILTERS = [lambda x: True, lambda x: x.n % 2 == 0, lambda x: x.n < 3, lambda x: x.n != 1, lambda x: False]
SORTS = [None, lambda x: x.n, lambda x: -x.n, lambda x: (x.n % 3, x.id)]


def is_view(items, src, f, s, rev):
    want = [x for x in src if FILTERS[f](x)]
    key = SORTS[s]
    if key is None:
        return items == want
    if len(items) != len(want) or set(items) != set(want):
        return False
    ks = [key(x) for x in items]
    return ks == sorted(ks, reverse=rev)


class Scenario(ScenarioBase):
    no_reports = False  # an item that changes on one thread while it is removed on another is reported and ignored
    components = {"real": ["nion.utils.ListModel.FilteredListModel", "nion.utils.ListModel.ListModel", "nion.utils.Observable", "nion.utils.Event"], "stub": ["threads and locks (simulated)", "items (seeded hash)", "filter and sort functions (scripted failures)"]}
    rule = "A case is a seeded program of one source-changing client and up to three clients changing filter, sort and items, grouping changes, refreshing and reading, with failing filter and sort functions, and a seeded schedule; non-trivial: a preemption inside the code or an injected failure, and at least two notifications."

    def gen(self, rng, tier):
        threads = []
        nt = rng.choice((1, 2, 2, 3, 3, 4))
        pf = rng.choice((0, 0, 0, 0.03, 0.1))
        values = rng.random() < 0.6
        grouped = rng.random() < 0.6
        chain = rng.random() < 0.25
        r = rng.random
        free = r() < 0.3  # no sort keys: items may change at any time, on any thread
        nsorts = 1 if free else len(SORTS)

        def src():
            return weighted(rng, [(5, ["ins", r(), rng.randrange(6), r() < 0.3]), (3, ["del", r()]), (2, ["move", r(), r()])])

        def cfg():
            m = 1 if chain and r() < 0.4 else 0
            return weighted(rng, [(3, ["filter", m, rng.randrange(len(FILTERS))]), (3, ["sort", m, rng.randrange(nsorts)]), (1.5, ["rev", m, r() < 0.6]), (1, ["mark", m]), (0.5, ["fail", m])])

        for phase in range(rng.choice((1, 1, 2))):
            ts = []
            for t in range(nt):
                ops = []
                role = "src" if t == 0 else rng.choice(("cfg", "cfg", "read", "item"))
                for _ in range(rng.randrange(1, 6 if tier == "quick" else 10)):
                    if role == "read":
                        op = ["read", 0 if not chain else rng.randrange(2)]
                    else:
                        w = [(4, src()) if t == 0 else (0, None), (3 if role == "cfg" or nt == 1 else 0.7, cfg()), (0.5, ["read", 0])]
                        if values and not chain:
                            w.append((3 if role == "item" or nt == 1 else 1, ["item", r(), rng.randrange(6)]))
                        w.append((1.5 if role == "item" else 0.3, ["touch", r()]))
                        op = weighted(rng, w)
                    ops.append(op)
                if grouped and role != "read" and r() < 0.6:
                    i = rng.randrange(len(ops))
                    j = rng.randrange(i, len(ops)) + 1
                    m = 1 if chain and r() < 0.3 else 0
                    ops[i:j] = [["begin", m]] + ops[i:j] + [["end", m]]
                ts.append(ops)
            threads.append(ts)
        long = rng.randrange(10, 60) if r() < 0.02 and not chain else 0
        return dict(phases=[dict(threads=t) for t in threads], init=[rng.randrange(6) for _ in range(long or rng.randrange(0, 6))], max_steps=1000000 if long else 100000, sort=rng.randrange(nsorts), filter=rng.randrange(4), rev=r() < 0.3, chain=chain, pf=pf,
                    fseed=rng.getrandbits(16), hash=rng.getrandbits(16), hmod=rng.choice((8, 61, 1 << 20)), raw=nt == 1 or free)

    shrink_lists = ("phases", "threads", "init")

    def shrink_more(self, plan):
        # remove single operations, keeping groups balanced
        from dsim.kit import clone
        for p, ph in enumerate(plan["phases"]):
            for t, ops in enumerate(ph["threads"]):
                for i, op in enumerate(ops):
                    c = clone(plan)
                    o = c["phases"][p]["threads"][t]
                    if op[0] == "begin":
                        j = next(k for k in range(i, len(ops)) if ops[k][0] == "end")
                        del o[j]
                        del o[i]
                    elif op[0] == "end":
                        continue
                    else:
                        del o[i]
                    yield c
        if plan["pf"]:
            yield dict(clone(plan), pf=0)
        if plan["chain"]:
            yield dict(clone(plan), chain=False)

    def nontrivial(self, plan, o):
        return o.stats.get("notifications", 0) > 1 and (o.switches > 0 or any(k.startswith("fault.") for k in o.stats))

    def run(self, sim, plan):
        LM, Event = self.m["ListModel"], self.m["Event"]
        hrng = random.Random(plan["hash"])
        frng = random.Random(plan["fseed"])
        st = dict(faults=True, n=0)

        class Item:
            def __init__(self, n):
                self.n = n
                self.id = st["n"]
                st["n"] += 1
                self._h = hrng.randrange(plan["hmod"])
                self.item_changed_event = Event.Event()

            def __hash__(self):
                return self._h

            def __eq__(self, other):
                return self is other

            def __repr__(self):
                return f"i{self.id}({self.n})"

        def flaky(fn, what):
            def call(x):
                if st["faults"] and frng.random() < plan["pf"]:
                    sim.count(f"fault.{what}_exception")
                    sim.log(what, "raises")
                    raise Injected(what)
                return fn(x)
            return call

        filters = [LM.PredicateFilter(flaky(f, "filter")) for f in FILTERS]
        sorts = [flaky(s, "sort") if s else None for s in SORTS]

        src = LM.ListModel("things")
        ref = []
        everything = []
        loose = []
        versions = []  # (begin, end, source contents)
        for n in plan["init"]:
            it = Item(n)
            everything.append(it)
            ref.append(it)
            src.append_item(it)
        st["faults"] = False
        models = [LM.FilteredListModel(container=src, master_items_key="things", items_key="items")]
        if plan["chain"]:
            models.append(LM.FilteredListModel(container=models[0], master_items_key="items", items_key="items2"))
        config = [dict(filter=0, sort=0, rev=False) for _ in models]
        models[0].filter = filters[plan["filter"]]
        models[0].sort_key = sorts[plan["sort"]]
        models[0].sort_reverse = plan["rev"]
        config[0] = dict(filter=plan["filter"], sort=plan["sort"], rev=plan["rev"])
        sets = [[dict(f=f, v=config[m][f], b=-2, e=-1) for f in ("filter", "sort", "rev")] for m in range(len(models))]
        groups = [[] for _ in models]
        inside = [0 for _ in models]  # groups of changes certainly in progress
        values = []
        reads = []
        mirrors = []
        st["faults"] = True
        versions.append([-2, -1, list(ref)])

        class Mirror:
            def __init__(self, name, model, number):
                self.name, self.model, self.number = name, model, number
                self.items = list(model.items)
                self.tokens = [model.item_inserted_event.listen(self.ins), model.item_removed_event.listen(self.rem)]

            def ins(self, key, item, index):
                sim.count("notifications")
                sim.log(self.name, "insert", repr(item), index)
                sim.check(not inside[self.number], "changed-in-group", lambda: f"{self.name}: insert of {item!r} before the group of changes ended")
                sim.check(0 <= index <= len(self.items), "bad-index", lambda: f"{self.name}: insert of {item!r} at {index}, observer holds {self.items!r}")
                self.items.insert(index, item)
                self.same(f"insert of {item!r} at {index}")

            def rem(self, key, item, index):
                sim.count("notifications")
                sim.log(self.name, "remove", repr(item), index)
                sim.check(not inside[self.number], "changed-in-group", lambda: f"{self.name}: removal of {item!r} before the group of changes ended")
                sim.check(0 <= index < len(self.items) and self.items[index] is item, "wrong-item", lambda: f"{self.name}: removal of {item!r} at {index}, observer holds {self.items!r}")
                del self.items[index]
                self.same(f"removal of {item!r} at {index}")

            def same(self, what):
                real = list(self.model.items)
                sim.check(real == self.items, "not-mirrored", lambda: f"{self.name}: after {what} the model holds {real!r}, an observer {self.items!r}")

        for i, m in enumerate(models):
            mirrors.append(Mirror(f"model{i}", m, i))

        def source(op):
            v = [sim.seqno(), None, None]
            versions.append(v)
            if op[0] == "ins":
                i = int(op[1] * (len(ref) + 1))
                if op[3] and loose:
                    it = loose.pop()
                else:
                    it = Item(op[2])
                    everything.append(it)
                ref.insert(i, it)
                v[2] = list(ref)
                src.insert_item(i, it)
            elif op[0] == "del":
                if ref:
                    i = min(int(op[1] * len(ref)), len(ref) - 1)
                    loose.append(ref.pop(i))
                    v[2] = list(ref)
                    src.remove_item(i)
            elif ref:
                i = min(int(op[1] * len(ref)), len(ref) - 1)
                it = ref.pop(i)
                v[2] = list(ref)
                src.remove_item(i)
                v[1] = sim.seqno()
                i = int(op[2] * (len(ref) + 1))
                ref.insert(i, it)
                v = [sim.seqno(), None, list(ref)]
                versions.append(v)
                src.insert_item(i, it)
            if v[2] is None:
                versions.remove(v)
            v[1] = sim.seqno()

        def client(ops):
            def run():
                opened = [[] for _ in models]
                for op in ops:
                    k = op[0]
                    m = op[1] % len(models) if k in ("filter", "sort", "rev", "mark", "begin", "end", "read", "fail") else 0
                    model = models[m]
                    sim.log("op", *op)
                    rec = None
                    try:
                        if k in ("ins", "del", "move"):
                            source(op)
                        elif k in ("filter", "sort", "rev"):
                            rec = dict(f=k, v=op[2], b=sim.seqno(), e=None)
                            sets[m].append(rec)
                            if k == "filter":
                                model.filter = filters[op[2]]
                            elif k == "sort":
                                model.sort_key = sorts[op[2]]
                            else:
                                model.sort_reverse = op[2]
                        elif k == "mark":
                            g = [sim.seqno(), None]
                            groups[m].append(g)
                            model.mark_changed()
                            g[1] = sim.seqno()
                        elif k == "fail":
                            # the body of a group fails
                            g = [sim.seqno(), None]
                            groups[m].append(g)
                            try:
                                with model.changes():
                                    sim.count("fault.group_exception")
                                    raise Injected("group")
                            finally:
                                g[1] = sim.seqno()
                        elif k == "touch" and everything:
                            # an item announces a change of something else
                            everything[min(int(op[1] * len(everything)), len(everything) - 1)].item_changed_event.fire()
                        elif k == "begin":
                            g = [sim.seqno(), None]
                            groups[m].append(g)
                            opened[m].append(g)
                            model.begin_change()
                            inside[m] += 1
                        elif k == "end" and opened[m]:
                            g = opened[m].pop()
                            inside[m] -= 1
                            try:
                                model.end_change()
                            finally:
                                g[1] = sim.seqno()
                        elif k == "item" and everything:
                            it = everything[min(int(op[1] * len(everything)), len(everything) - 1)]
                            values.append(it)
                            if plan["raw"]:
                                it.n = op[2]
                                it.item_changed_event.fire()
                            else:
                                with model.changes():
                                    inside[m] += 1
                                    it.n = op[2]
                                    it.item_changed_event.fire()
                                    inside[m] -= 1
                        elif k == "read":
                            b = sim.seqno()
                            items = list(model.items)
                            reads.append((m, b, sim.seqno(), items))
                    except Injected:
                        pass
                    if rec is not None:
                        rec["e"] = sim.seqno()
                for m, n in enumerate(opened):
                    for g in n:
                        inside[m] -= 1
                        try:
                            models[m].end_change()
                        except Injected:
                            pass
                        g[1] = sim.seqno()
            return run

        def final_values(m, f):
            ops = [s for s in sets[m] if s["f"] == f]
            return {s["v"] for s in ops if not any(o["b"] > s["e"] for o in ops)}

        def check(what):
            for m, model in enumerate(models):
                items = list(model.items)
                s = list(ref) if m == 0 else list(models[0].items)
                ok = any(is_view(items, s, f, so, r) for f in final_values(m, "filter") for so in final_values(m, "sort") for r in final_values(m, "rev"))
                d = lambda: f"{what}: model{m} holds {items!r}, source {s!r}, filter in {final_values(m, 'filter')}, sort in {final_values(m, 'sort')}, reverse in {final_values(m, 'rev')}"
                sim.check(ok, "wrong-view", d)
                sim.check(mirrors[m].items == items, "not-mirrored", lambda: f"{what}: model{m} holds {items!r}, an observer {mirrors[m].items!r}")
                # the settings read back are the ones the list was built with
                f, so, r = model.filter, model.sort_key, model.sort_reverse
                if f in filters and so in sorts:
                    sim.check(is_view(items, s, filters.index(f), sorts.index(so), r), "wrong-view", d)

        def check_reads():
            for m, b, e, items in reads:
                sim.check(len(items) == len(set(items)), "reader", lambda: f"a reader saw {items!r}")
                if m or values or plan["pf"]:
                    continue
                # a read within a group of changes sees the list as it was at some time since the group began
                grown = True
                while grown:
                    grown = False
                    for gb, ge in groups[0]:
                        if gb < b and gb < e and (ge is None or ge > b):
                            b, grown = gb, True
                cand = {}
                for f in ("filter", "sort", "rev"):
                    ops = [s for s in sets[0] if s["f"] == f and s["b"] < e]
                    cand[f] = {s["v"] for s in ops if not any(o["b"] > s["e"] and o["e"] < b for o in ops if s["e"] is not None and o["e"] is not None)}
                vs = [v for v in versions if v[0] < e]
                vs = [v for i, v in enumerate(vs) if not any(o[1] is not None and o[1] < b for o in vs[i + 1:])]
                ok = any(is_view(items, v[2], f, s, r) for v in vs for f in cand["filter"] for s in cand["sort"] for r in cand["rev"])
                sim.check(ok, "reader", lambda: f"a reader saw {items!r}; source {[v[2] for v in vs]!r}, settings {cand}")
            reads.clear()

        for p, phase in enumerate(plan["phases"]):
            run_all(sim, [client(ops) for ops in phase["threads"]])
            st["faults"] = False
            if plan["pf"]:
                for m in models:
                    m.mark_changed()
            check(f"phase {p}")
            check_reads()
            st["faults"] = True
        st["faults"] = False
        for m in reversed(models):
            m.close()
            sim.check(not list(m.items), "not-empty", lambda: f"{list(m.items)!r} after close")
