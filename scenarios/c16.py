"""C16: list notifications let any observer mirror the list; derived lists equal their definition."""
import copy
import datetime
import operator

from dsim.kit import Injected, ScenarioBase, from_end, other_index, weighted

NB = 2  # plain source lists
FILTERS = 5
SORTS = 4
TEXTS = ("", "Ab", "abra", "BRA", "cab", "x")  # an item's text and date follow from its number
DATES = ((2020, 1, 1), (2020, 2, 3), (2021, 2, 1), (2021, 1, 3), (2020, 12, 31), (2022, 2, 28))


def gen_filter(rng, depth=2):
    """A filter as a nested list: what kind, its arguments."""
    k = weighted(rng, [(1, "true"), (0.5, "false"), (1, "pred"), (2, "eq"), (2, "ne"), (2, "starts"), (3, "text"), (3, "date")] + ([(3, "and"), (3, "or"), (2, "not")] if depth else []))
    if k in ("and", "or"):
        return [k, [gen_filter(rng, depth - 1) for _ in range(rng.choice((0, 1, 2, 2, 3)))]]
    if k == "not":
        return [k, gen_filter(rng, depth - 1)]
    if k in ("eq", "ne"):
        return [k, rng.randrange(6), rng.choice(("eq", "eq", "lt", "ge"))]
    if k in ("starts", "text"):
        return [k, rng.choice(("", "a", "A", "ab", "Ab", "aB", "br", "R", "x", "X", "zz"))]
    if k == "date":
        y, m, d = rng.choice(DATES)
        return [k, rng.choice((None, y)), rng.choice((None, m)), rng.choice((None, d))]
    if k == "pred":
        return [k, rng.choice((2, 3))]
    return [k]


def matching(f, n):
    """Whether an item numbered n matches the filter."""
    k = f[0]
    if k in ("true", "false"):
        return k == "true"
    if k == "pred":
        return n % f[1] == 0
    if k in ("eq", "ne"):
        v = {"eq": n == f[1], "lt": n < f[1], "ge": n >= f[1]}[f[2]]
        return v if k == "eq" else not v
    if k == "starts":
        return TEXTS[n].startswith(f[1])
    if k == "text":
        return f[1].lower() in TEXTS[n].lower()
    if k == "date":
        return all(w is None or w == h for w, h in zip(f[1:], DATES[n]))
    if k == "not":
        return not matching(f[1], n)
    return (all if k == "and" else any)(matching(g, n) for g in f[1])


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.ListModel (ListModel, MappedListModel, FilteredListModel, FlattenedListModel)", "nion.utils.Observable", "nion.utils.Event"], "stub": ["items (hash decided by the plan, so set order is seeded)", "observers (scripted failures)"]}
    rule = "A case is a seeded history of source changes, item changes, filter and sort changes, grouped changes, re-targeting and closing over a chain of list models with failing observers; non-trivial: a derived model sent at least two notifications."
    shrink_lists = ("ops",)

    def gen_values(self, rng):
        """Lists of values: equal, repeated and false ones included."""
        r = rng.random
        nodes = []
        for _ in range(rng.randrange(1, 5)):
            nodes.append([rng.choice(("mapped", "flattened")), rng.randrange(8), r() < 0.7])
        ops = []
        for _ in range(rng.randrange(5, 30)):
            k = weighted(rng, [(6, "ins"), (4, "del"), (0.3, "clear"), (2, "row"), (1, "rowdel"), (6, "kid"), (4, "kiddel"), (1, "target"), (0.3, "close")])
            ops.append([k, r(), r(), rng.randrange(4), r() < 0.3])
        return dict(values=True, nodes=nodes, ops=ops, initial=[rng.randrange(4) for _ in range(rng.choice((0, 0, 2, 4)))], pf=rng.choice((0, 0, 0.3)), fseed=rng.getrandbits(16), keyed=r() < 0.5, cascade=r() < 0.5, odd=r() < 0.3)

    def gen(self, rng, tier):
        if rng.random() < 0.15:
            return self.gen_values(rng)
        ops = []
        n = 0
        deep = rng.random() < 0.5
        for _ in range(rng.randrange(1, 4)):
            src = NB + n - 1 if (deep and n) else rng.randrange(NB + n)
            ops.append(["create", weighted(rng, [(2, "mapped"), (4, "filtered"), (3, "flattened")]), src, rng.random() < 0.5])
            n += 1
        for _ in range(rng.randrange(1, 6)):
            ops.insert(rng.randrange(len(ops) + 1), ["ins", rng.choice((0, 0, 0, 1)), rng.random(), rng.randrange(6), False])
        r = rng.random
        for _ in range(rng.randrange(4, 22 if tier == "quick" else 60)):
            k = weighted(rng, [(6, "ins"), (4, "del"), (0.4, "clear"), (2, "move"), (5, "kidins"), (3, "kiddel"), (1, "kidmove"), (5, "change"), (3, "filter"), (3, "sort"), (1.5, "rev"), (2.5, "begin"),
                               (2.5, "end"), (1, "mark"), (0.7, "with"), (1.5, "target"), (0.4, "close"), (0.7, "create"), (0.7, "observe")])
            b = rng.choice((0, 0, 0, 1))
            m = rng.randrange(n)
            if k == "ins":
                ops.append([k, b, r(), rng.randrange(6), r() < 0.35])
            elif k in ("del", "clear"):
                ops.append([k, b, r()])
            elif k == "move":
                ops.append([k, b, r(), r()])
            elif k in ("kidins", "kiddel", "kidmove"):
                ops.append([k, r(), r(), rng.randrange(6), r()])
            elif k == "change":
                ops.append([k, r(), rng.randrange(6)])
            elif k == "filter":
                ops.append([k, m, rng.randrange(FILTERS) if r() < 0.5 else gen_filter(rng), weighted(rng, [(4, 0), (3, 1), (1, 2)])])
            elif k == "sort":
                ops.append([k, m, rng.randrange(SORTS)])
            elif k == "rev":
                ops.append([k, m, r() < 0.6])
            elif k == "target":
                ops.append([k, m, rng.choice((-1, 0, 1, rng.randrange(NB + m)))])
            elif k == "create":
                if n < 6:
                    ops.append([k, weighted(rng, [(2, "mapped"), (4, "filtered"), (3, "flattened")]), rng.randrange(NB + n), r() < 0.5])
                    n += 1
            else:
                ops.append([k, m])
        if r() < 0.03:
            # long lists
            for _ in range(rng.choice((1, 1, 2))):
                ops.insert(rng.randrange(len(ops) + 1), ["bulk", rng.choice((0, 0, 0, 1)), r(), rng.randrange(10, 90), rng.randrange(1, 6)])
            if r() < 0.5:
                i = rng.randrange(len(ops) + 1)
                m = rng.randrange(n)
                ops[i:i] = [["begin", m], ["bulkdel", rng.choice((0, 0, 0, 1)), r(), rng.randrange(5, 40)], ["end", m]]
            if r() < 0.3:
                ops.insert(rng.randrange(len(ops) + 1), ["bulkkids", r(), rng.randrange(10, 60), rng.randrange(1, 6)])
        return dict(ops=ops, hash=rng.getrandbits(16), pf=rng.choice((0, 0, 0.1, 0.4)), fseed=rng.getrandbits(16), shared=rng.random() < 0.5, keyed=rng.random() < 0.5, falsy=rng.random() < 0.2, defaults=rng.random() < 0.2, hmod=rng.choice((8, 61, 1 << 20)), odd=rng.random() < 0.2)

    def shrink_more(self, plan):
        from dsim.kit import clone
        for i, op in enumerate(plan["ops"]):
            if op[0] in ("bulk", "bulkkids", "bulkdel"):
                j = 2 if op[0] == "bulkkids" else 3
                for v in {op[j] // 2, op[j] - 1}:
                    if 0 < v < op[j]:
                        c = clone(plan)
                        c["ops"][i][j] = v
                        yield c

    def nontrivial(self, plan, o):
        return o.stats.get("notifications", 0) > 1

    def run_values(self, sim, plan):
        import random
        LM = self.m["ListModel"]
        frng = random.Random(plan["fseed"])

        class Value:
            def __init__(self, n):
                self.n = n

            def __eq__(self, other):
                return self.n == other.n

            def __hash__(self):
                return self.n

            def __bool__(self):
                return self.n != 0

            def __repr__(self):
                return f"v{self.n}"

        class Row(LM.ListModel):
            pass

        class Mapped(Value):
            def __init__(self, src):
                super().__init__(src.n % 2)
                self.src = src

        def same(a, b):
            return len(a) == len(b) and all(x is y for x, y in zip(a, b))

        def bad(*args):
            if frng.random() < plan["pf"]:
                sim.count("fault.observer_exception")
                raise Injected("observer")

        vkey = "vals" if plan["keyed"] else None
        initial = [Value(n) for n in plan["initial"]]
        lists = [LM.ListModel(vkey, items=initial), LM.ListModel(vkey)]
        refs = [list(initial), []]
        rows = LM.ListModel("rows")
        rowrefs = []  # [row, kids]
        nodes = []  # kind, model, source (index of a list, a node or "rows")
        mirrors = []
        keep = []

        def observe(name, model, key):
            mirror = list(model.items)

            def ins(k, item, index):
                sim.count("notifications")
                sim.log(name, "insert", repr(item), index)
                sim.check(k == key, "wrong-key", lambda: f"{name}: notification for {k!r}")
                sim.check(0 <= index <= len(mirror), "bad-index", lambda: f"{name}: insert at {index}, {len(mirror)} items")
                mirror.insert(index, item)
                sim.check(same(model.items, mirror), "not-mirrored", lambda: f"{name} holds {model.items!r}, an observer {mirror!r}")

            def rem(k, item, index):
                sim.log(name, "remove", repr(item), index)
                sim.check(k == key, "wrong-key", lambda: f"{name}: notification for {k!r}")
                sim.check(0 <= index < len(mirror) and mirror[index] is item, "wrong-item", lambda: f"{name}: removal of {item!r} at {index} notified, observer holds {mirror!r}")
                del mirror[index]
                sim.check(same(model.items, mirror), "not-mirrored", lambda: f"{name} holds {model.items!r}, an observer {mirror!r}")
            keep.extend((model.item_inserted_event.listen(bad), model.item_inserted_event.listen(ins), model.item_removed_event.listen(bad), model.item_removed_event.listen(rem)))
            mirrors.append((name, model, mirror))

        for i, m in enumerate(lists):
            observe(f"list{i}", m, vkey or "items")
        for i, (kind, src, mapfn) in enumerate(plan["nodes"]):
            if kind == "flattened":
                m = LM.FlattenedListModel(container=rows, master_items_key="rows", child_items_key="kids", items_key="flat")
                nodes.append(dict(kind=kind, m=m, src="rows", key="flat"))
            else:
                cands = [(lists[0], vkey or "items", 0), (lists[1], vkey or "items", 1)] + [(n["m"], n["key"], n) for n in nodes]
                c, key, s = cands[src % len(cands)]
                fn = Mapped if mapfn else None
                m = LM.MappedListModel(container=c, master_items_key=key, items_key=f"m{i}", map_fn=fn)
                nodes.append(dict(kind=kind, m=m, src=s, key=f"m{i}", fn=fn))
            observe(f"{kind}{i}", nodes[-1]["m"], nodes[-1]["key"])

        def check():
            for i, m in enumerate(lists):
                sim.check(same(m.items, refs[i]), "wrong-list", lambda: f"list {i} holds {m.items!r}, expected {refs[i]!r}")
            for i, n in enumerate(nodes):
                items = list(n["m"].items)
                if n["kind"] == "flattened":
                    want = [k for _, kids in rowrefs for k in kids] if n["src"] is not None else []
                else:
                    s = n["src"]
                    want = [] if s is None else refs[s] if isinstance(s, int) else list(s["m"].items)
                    if n["fn"]:
                        items = [x.src for x in items]
                sim.check(same(items, want), "wrong-derived", lambda: f"{n['kind']}{i} holds {items!r}, expected {want!r}")
            for name, m, mirror in mirrors:
                sim.check(same(m.items, mirror), "not-mirrored", lambda: f"{name} holds {m.items!r}, an observer {mirror!r}")

        def at(f, n):
            return min(int(f * n), n - 1)

        place = other_index if plan.get("odd") else lambda i, n, f: i
        index = from_end if plan.get("odd") else lambda i, n, f: i
        cascade = []

        def changed(*args):
            if cascade:
                sim.count("fault.change_while_notifying")
                cascade.pop()()

        check()
        for k, a, b, n, flag in plan["ops"]:
            li = 1 if a > 0.8 else 0
            if k == "ins":
                # the same value again, an equal one, or a new one
                v = refs[li][at(b, len(refs[li]))] if flag and refs[li] else Value(n)
                i = int(b * (len(refs[li]) + 1))
                refs[li].insert(i, v)
                lists[li].insert_item(place(i, len(refs[li]) - 1, b), v)
            elif k == "del" and refs[li]:
                i = at(b, len(refs[li]))
                del refs[li][i]
                lists[li].remove_item(index(i, len(refs[li]) + 1, b))
            elif k == "clear":
                refs[li].clear()
                lists[li].clear_items()
            elif k == "row":
                kids = [Value(n), Value(n)] if flag else []
                row = Row("kids", items=kids)
                keep.extend((row.item_inserted_event.listen(changed), row.item_removed_event.listen(changed)))
                i = int(b * (len(rowrefs) + 1))
                rowrefs.insert(i, (row, kids))
                rows.insert_item(place(i, len(rowrefs) - 1, b), row)
            elif k == "rowdel" and rowrefs:
                i = at(b, len(rowrefs))
                del rowrefs[i]
                rows.remove_item(index(i, len(rowrefs) + 1, b))
            elif k in ("kid", "kiddel") and rowrefs:
                row, kids = rowrefs[at(a, len(rowrefs))]
                others = [x for x in rowrefs if x[0] is not row]
                if plan.get("cascade") and others and n % 2:
                    # whoever watches this row changes another one before anyone else learns of the change
                    def also(row2=others[at(b, len(others))], n=n, flag=flag):
                        row2, kids2 = row2
                        if flag and kids2:
                            i2 = n % len(kids2)
                            del kids2[i2]
                            row2.remove_item(i2)
                        else:
                            v2 = Value(n)
                            i2 = n % (len(kids2) + 1)
                            kids2.insert(i2, v2)
                            row2.insert_item(i2, v2)
                    cascade.append(also)
                if k == "kid":
                    v = kids[at(b, len(kids))] if flag and kids else Value(n)
                    i = int(b * (len(kids) + 1))
                    kids.insert(i, v)
                    row.insert_item(place(i, len(kids) - 1, b), v)
                elif kids:
                    i = at(b, len(kids))
                    del kids[i]
                    row.remove_item(index(i, len(kids) + 1, b))
                cascade.clear()
            elif k in ("target", "close") and nodes:
                node = nodes[at(a, len(nodes))]
                if node.get("closed"):
                    continue
                if k == "close":
                    node["closed"] = True
                    node["src"] = None
                    node["m"].close()
                elif node["kind"] == "flattened":
                    node["src"] = None if flag else "rows"
                    node["m"].container = None if flag else rows
                elif node["src"] is None or isinstance(node["src"], int):
                    if not node.get("list", isinstance(node["src"], int)):
                        continue
                    node["list"] = True
                    node["src"] = None if flag else li
                    node["m"].container = None if flag else lists[li]
            check()

    def run(self, sim, plan):
        if plan.get("values"):
            return self.run_values(sim, plan)
        import random
        LM = self.m["ListModel"]
        Event = self.m["Event"]
        frng = random.Random(plan["fseed"])
        hrng = random.Random(plan["hash"])
        place = other_index if plan.get("odd") else lambda i, n, f: i
        index = from_end if plan.get("odd") else lambda i, n, f: i
        pool = []

        class Item(LM.ListModel):
            def __init__(self, n):
                super().__init__("kids")
                self._h = hrng.randrange(plan["hmod"])
                self.n = n
                self.id = len(pool)
                self.item_changed_event = Event.Event()
                self.ref = []
                self.where = None
                pool.append(self)

            def __hash__(self):
                return self._h

            def __bool__(self):
                return not (plan["falsy"] and self.id % 3 == 0)

            def __repr__(self):
                return f"i{self.id}({self.n})"

            text = property(lambda self: TEXTS[self.n])
            date = property(lambda self: datetime.date(*DATES[self.n]))

        class Wrapped:
            def __init__(self, src):
                self._h = hrng.randrange(plan["hmod"])
                self.src = src
                self.item_changed_event = src.item_changed_event
                self.item_inserted_event = src.item_inserted_event
                self.item_removed_event = src.item_removed_event

            def __hash__(self):
                return self._h

            def __bool__(self):
                return bool(self.src)

            n = property(lambda self: self.src.n)
            kids = property(lambda self: self.src.kids)
            text = property(lambda self: self.src.text)
            date = property(lambda self: self.src.date)

            def __repr__(self):
                return f"w{self.src!r}"

        filters = [LM.Filter(True), LM.PredicateFilter(lambda x: x.n % 2 == 0), LM.EqFilter("n", 3, lambda a, b: a < b), LM.NotFilter(LM.EqFilter("n", 1)),
                   LM.AndFilter([LM.EqFilter("n", 1, lambda a, b: a >= b), LM.OrFilter([LM.EqFilter("n", 2), LM.NotEqFilter("n", 4)])])]
        matches = [lambda x: True, lambda x: x.n % 2 == 0, lambda x: x.n < 3, lambda x: x.n != 1, lambda x: x.n >= 1 and x.n != 4]

        def build(f):
            k = f[0]
            if k in ("true", "false"):
                return LM.Filter(k == "true")
            if k == "pred":
                return LM.PredicateFilter(lambda x: x.n % f[1] == 0)
            if k in ("eq", "ne"):
                args = () if f[2] == "eq" else (getattr(operator, f[2]),)
                return (LM.EqFilter if k == "eq" else LM.NotEqFilter)("n", f[1], *args)
            if k == "starts":
                return LM.StartsWithFilter("text", f[1])
            if k == "text":
                return LM.TextFilter("text", f[1])
            if k == "date":
                return LM.PartialDateFilter("date", *f[1:])
            if k == "not":
                return LM.NotFilter(build(f[1]))
            parts = [build(g) for g in f[1]]
            result = (LM.AndFilter if k == "and" else LM.OrFilter)(parts)
            parts.append(LM.Filter(k == "or"))  # the list given stays the caller's
            return result

        def match(f, x):
            return matches[f](x) if isinstance(f, int) else matching(f, x.n)

        sorts = [None, lambda x: x.n, lambda x: -x.n, lambda x: x.n % 3]

        class Mirror:
            def __init__(self, name, model, key, node):
                self.name, self.model, self.key, self.node = name, model, key, node
                self.items = list(model.items)
                self.alive = True
                self.tokens = [model.item_inserted_event.listen(self.ins), model.item_removed_event.listen(self.rem)]

            def ins(self, key, item, index):
                self.note("insert", key, item, index)
                sim.check(0 <= index <= len(self.items), "bad-index", lambda: f"{self.name}: insert of {item!r} at {index}, list has {len(self.items)}")
                self.items.insert(index, item)
                self.same("insert", item, index)

            def rem(self, key, item, index):
                self.note("remove", key, item, index)
                sim.check(0 <= index < len(self.items) and self.items[index] is item, "wrong-item", lambda: f"{self.name}: removal of {item!r} at {index} notified, observer holds {self.items!r}")
                del self.items[index]
                self.same("remove", item, index)

            def note(self, what, key, item, index):
                sim.count("notifications")
                sim.log(self.name, what, repr(item), index)
                sim.check(self.alive, "notified-after-close", lambda: f"{self.name}: {what} of {item!r} after close")
                sim.check(key == self.key, "wrong-key", lambda: f"{self.name}: notification for {key!r}, list is {self.key!r}")
                sim.check(self.node["kind"] != "filtered" or self.node["level"] == 0, "changed-in-group", lambda: f"{self.name}: {what} of {item!r} before the group of changes ended")

            def same(self, what, item, index):
                real = list(self.model.items)
                sim.check(len(real) == len(self.items) and all(a is b for a, b in zip(real, self.items)), "not-mirrored", lambda: f"{self.name}: after {what} of {item!r} at {index} the model holds {real!r}, an observer {self.items!r}")

        def bad(*args):
            if frng.random() < plan["pf"]:
                sim.count("fault.observer_exception")
                raise Injected("observer")

        nodes = []
        mirrors = []
        refs = []
        keep = []
        st = dict(open=False)  # whether something was built or re-targeted amid a group of changes, which it then only saw in part

        def add_node(kind, model, key, src):
            n = dict(kind=kind, m=model, key=key, src=src, master=src["key"] if src else None, filter=0, sort=0, rev=False, level=0, closed=False, name=f"{kind}{len(nodes)}", mapped=[])
            nodes.append(n)
            keep.append(model.item_inserted_event.listen(bad))
            keep.append(model.item_removed_event.listen(bad))
            if kind in ("filtered", "mapped"):
                n["depth"] = 0

                def begin(k):
                    sim.check(k == key, "wrong-key", lambda: f"{n['name']}: beginning of changes announced for {k!r}, list is {key!r}")
                    n["depth"] += 1

                def end(k):
                    sim.check(k == key, "wrong-key", lambda: f"{n['name']}: end of changes announced for {k!r}, list is {key!r}")
                    n["depth"] -= 1
                    sim.check(n["depth"] >= 0 or st["open"], "changes-unbalanced", lambda: f"{n['name']}: more ends than beginnings of changes announced")

                keep.extend((model.begin_changes_event.listen(begin), model.end_changes_event.listen(end)))
                if kind == "filtered":
                    def enclosed(k, item, index):
                        sim.check(n["depth"] > 0 or st["open"], "changes-unbalanced", lambda: f"{n['name']}: {item!r} at {index} notified outside announced changes")
                    keep.extend((model.item_inserted_event.listen(enclosed), model.item_removed_event.listen(enclosed)))
            observe(n)
            keep.append(model.item_inserted_event.listen(bad))
            keep.append(model.item_removed_event.listen(bad))
            for e in ("begin_changes_event", "end_changes_event", "reset_list_event"):
                if kind != "list" and hasattr(model, e):
                    keep.append(getattr(model, e).listen(bad))
            return n

        def observe(n):
            mirrors.append((n, Mirror(n["name"], n["m"], n["key"], n)))

        for b in range(NB):
            key = "things" if plan["keyed"] else None
            model = LM.ListModel(key)
            refs.append([])
            add_node("list", model, key or "items", None)

        def create(kind, src):
            key = "shared" if plan["shared"] else f"k{len(nodes)}"
            s = nodes[src]
            if plan["defaults"]:
                # a filtered list may have the key of its source, a flattened one that of the children
                if kind == "filtered":
                    return add_node(kind, LM.FilteredListModel(container=s["m"], items_key=s["key"]), s["key"], s)
                if kind == "flattened":
                    return add_node(kind, LM.FlattenedListModel(container=s["m"], master_items_key=s["key"], child_items_key="kids"), "kids", s)
            args = dict(container=s["m"], master_items_key=s["key"], items_key=key)
            if kind == "mapped":
                made, gone = [], []

                def wrap(x):
                    made.append(Wrapped(x))
                    return made[-1]
                model = LM.MappedListModel(map_fn=wrap, unmap_fn=gone.append, **args)
                unmapped.append((model, made, gone))
            elif kind == "filtered":
                model = LM.FilteredListModel(**args)
            else:
                model = LM.FlattenedListModel(container=s["m"], master_items_key=s["key"], child_items_key="kids", items_key=key)
            add_node(kind, model, key, s)

        unmapped = []

        def at(f, n):
            return min(int(f * n), n - 1)

        def check():
            for m, made, gone in unmapped:
                here = {id(x) for x in m.items}
                left = [x for x in made if id(x) not in here]
                sim.check(len(gone) == len(left) and {id(x) for x in gone} == {id(x) for x in left}, "not-unmapped", lambda: f"{len(left)} mapped items are no longer there, the unmapping function was given {len(gone)}")
            for b in range(NB):
                sim.check(nodes[b]["m"].items == refs[b], "wrong-list", lambda: f"list {b} holds {nodes[b]['m'].items!r}, expected {refs[b]!r}")
            for it in pool:
                sim.check(it.kids == it.ref, "wrong-list", lambda: f"children of {it!r}: {it.kids!r}, expected {it.ref!r}")
            for n in nodes:
                items = list(n["m"].items)
                sim.check(list(getattr(n["m"], n["key"])) == items, "key-access", lambda: f"{n['name']}: attribute {n['key']} differs from items")
                if n["kind"] == "list":
                    continue
                if n["kind"] != "flattened":
                    if not st["open"] and not any(x["level"] for x in nodes):
                        sim.check(n["depth"] == 0, "changes-unbalanced", lambda: f"{n['name']}: {n['depth']} more beginnings than ends of changes announced")
                src = list(n["src"]["m"].items) if n["src"] is not None else []
                d = lambda: f"{n['name']} holds {items!r}, source {src!r}, filter {n['filter']} sort {n['sort']} reverse {n['rev']}"
                if n["kind"] == "mapped":
                    sim.check([w.src for w in items] == src, "wrong-derived", d)
                elif n["kind"] == "flattened":
                    flat = [k for s in src for k in s.kids]
                    sim.check(len(items) == len(flat) and all(a is b for a, b in zip(items, flat)), "wrong-derived", lambda: d() + f", children {flat!r}")
                elif n["level"] == 0:
                    want = [s for s in src if match(n["filter"], s)]
                    key = sorts[n["sort"]]
                    if key is None:
                        sim.check(items == want, "wrong-derived", lambda: d() + f", expected {want!r}")
                    else:
                        ks = [key(x) for x in items]
                        sim.check(set(items) == set(want) and len(items) == len(want) and ks == sorted(ks, reverse=n["rev"]), "wrong-derived", lambda: d() + f", keys {ks!r}")
            for n, m in mirrors:
                real = list(n["m"].items)
                sim.check(len(real) == len(m.items) and all(a is b for a, b in zip(real, m.items)), "not-mirrored", lambda: f"{n['name']} holds {real!r}, an observer {m.items!r}")

        def group(n, m):
            """A group of changes whose body fails."""
            try:
                with m.changes():
                    n["level"] += 1
                    do(["ins", 0, 0.5, 3, False])
                    n["level"] -= 1
                    sim.count("fault.group_exception")
                    raise Injected("group")
            except Injected:
                pass

        def loose():
            return [i for i in pool if i.where is None and i.id < 40]

        def attached():
            return [i for i in pool if i.where is not None]

        def do(op):
            k = op[0]
            if k in ("create", "target", "close") and any(x["level"] for x in nodes):
                st["open"] = True
            if k == "create":
                create(op[1], op[2] % len(nodes) if not nodes[op[2] % len(nodes)]["closed"] else 0)
                if op[3]:
                    observe(nodes[-1])
            elif k == "ins":
                old = loose()
                it = old[op[3] % len(old)] if op[4] and old else Item(op[3])
                i = int(op[2] * (len(refs[op[1]]) + 1))
                it.where = ("list", op[1])
                refs[op[1]].insert(i, it)
                if i == len(refs[op[1]]) - 1:
                    nodes[op[1]]["m"].append_item(it)
                else:
                    nodes[op[1]]["m"].insert_item(place(i, len(refs[op[1]]) - 1, op[2]), it)
            elif k == "bulk":
                r = refs[op[1]]
                i = int(op[2] * (len(r) + 1))
                for j in range(op[3]):
                    it = Item(j * op[4] % 6)
                    it.where = ("list", op[1])
                    r.insert(i, it)
                    nodes[op[1]]["m"].insert_item(i, it)
                    i = (i * 7 + j) % (len(r) + 1)
            elif k == "bulkdel":
                r = refs[op[1]]
                i = int(op[2] * len(r))
                for j in range(min(op[3], len(r))):
                    i = (i * 5 + j) % len(r)
                    r.pop(i).where = None
                    nodes[op[1]]["m"].remove_item(i)
            elif k == "bulkkids":
                ps = attached()
                if ps:
                    p = ps[at(op[1], len(ps))]
                    for j in range(op[2]):
                        it = Item(j * op[3] % 6)
                        it.where = ("item", p.id)
                        i = (j * 5 + 3) % (len(p.ref) + 1)
                        p.ref.insert(i, it)
                        p.insert_item(i, it)
            elif k == "del" and refs[op[1]]:
                i = at(op[2], len(refs[op[1]]))
                refs[op[1]].pop(i).where = None
                nodes[op[1]]["m"].remove_item(index(i, len(refs[op[1]]) + 1, op[2]))
            elif k == "clear":
                for it in refs[op[1]]:
                    it.where = None
                refs[op[1]].clear()
                nodes[op[1]]["m"].clear_items()
            elif k == "move" and refs[op[1]]:
                r = refs[op[1]]
                i = at(op[2], len(r))
                it = r.pop(i)
                nodes[op[1]]["m"].remove_item(i)
                check()
                j = int(op[3] * (len(r) + 1))
                r.insert(j, it)
                nodes[op[1]]["m"].insert_item(j, it)
            elif k in ("kidins", "kiddel", "kidmove"):
                # an item never contains itself: parents have lower numbers
                ps = attached() if op[4] < 0.9 else pool
                if not ps:
                    return
                p = ps[at(op[1], len(ps))]
                if k == "kidins":
                    it = Item(op[3])
                    it.where = ("item", p.id)
                    i = int(op[2] * (len(p.ref) + 1))
                    p.ref.insert(i, it)
                    p.insert_item(place(i, len(p.ref) - 1, op[2]), it)
                elif p.ref:
                    i = at(op[2], len(p.ref))
                    it = p.ref.pop(i)
                    it.where = None
                    p.remove_item(index(i, len(p.ref) + 1, op[2]))
                    if k == "kidmove":
                        check()
                        q = [x for x in pool if x.id < it.id]
                        p = q[at(op[4], len(q))]
                        it.where = ("item", p.id)
                        i = int(op[4] * (len(p.ref) + 1))
                        p.ref.insert(i, it)
                        p.insert_item(i, it)
            elif k == "change":
                if pool:
                    it = pool[at(op[1], len(pool))]
                    it.n = op[2]
                    it.item_changed_event.fire()
            elif k in ("filter", "sort", "rev", "begin", "end", "mark", "with", "target", "close", "observe"):
                n = nodes[NB:][op[1] % (len(nodes) - NB)] if len(nodes) > NB else None
                if n is None or n["closed"]:
                    return
                m = n["m"]
                if k == "observe":
                    observe(n)
                elif k == "close":
                    while n["level"]:
                        n["level"] -= 1
                        m.end_change()
                    check()
                    n["src"] = None
                    m.close()
                    n["closed"] = True
                elif k == "target":
                    i = nodes.index(n)
                    same = [x for x in nodes[:i] if x["key"] == n["master"] and not x["closed"]]
                    s = same[op[2] % len(same)] if op[2] >= 0 and same else None
                    n["src"] = s
                    m.container = None if s is None else s["m"]
                elif n["kind"] == "filtered":
                    if k == "filter":
                        n["filter"] = op[2]
                        f = filters[op[2]] if isinstance(op[2], int) else build(op[2])
                        for _ in range(op[3]):
                            f = copy.deepcopy(f)
                        m.filter = f
                    elif k == "sort":
                        n["sort"] = op[2]
                        m.sort_key = sorts[op[2]]
                    elif k == "rev":
                        n["rev"] = op[2]
                        m.sort_reverse = op[2]
                    elif k == "begin":
                        n["level"] += 1
                        m.begin_change()
                    elif k == "end" and n["level"]:
                        n["level"] -= 1
                        m.end_change()
                    elif k == "mark":
                        m.mark_changed()
                    elif k == "with":
                        group(n, m)
                elif n["kind"] == "mapped":
                    if k == "begin":
                        n["level"] += 1
                        m.begin_change()
                    elif k == "end" and n["level"]:
                        n["level"] -= 1
                        m.end_change()
                    elif k == "mark":
                        m.mark_changed()
                    elif k == "with":
                        group(n, m)
            check()

        for op in plan["ops"]:
            do(op)
        for n in nodes:
            while n["level"]:
                n["level"] -= 1
                n["m"].end_change()
        check()
        for n in reversed(nodes[NB:]):
            if not n["closed"]:
                n["src"] = None
                n["m"].close()
                n["closed"] = True
        check()
        for n, m in mirrors:
            if n["kind"] != "list":
                m.alive = False
        do(["ins", 0, 0.0, 2, False])
        do(["kidins", 0.0, 0.0, 2, 0.0])
        for it in list(pool):
            it.item_changed_event.fire()
        do(["clear", 0, 0])
