"""C26: what is closed, removed or replaced is let go."""
import copy
import gc
import weakref

from dsim.kit import Injected, ScenarioBase, weighted
from . import c24

EVENTS = ("property_changed_event", "item_set_event", "item_cleared_event", "item_inserted_event", "item_removed_event", "item_changed_event",
          "begin_changes_event", "end_changes_event", "reset_list_event", "model_changed_event", "field_value_changed_event",
          "array_item_inserted_event", "array_item_removed_event")
LISTS = ("filt", "mapped", "flat")
BINDS = ("pbind", "abind", "tbind", "lbind")


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.Binding", "nion.utils.ListModel", "nion.utils.Model", "nion.utils.StructuredModel", "nion.utils.Recorder", "nion.utils.Persistence", "nion.utils.Registry", "nion.utils.Event"],
                  "stub": ["application items, targets, observers and components"]}
    rule = "A case is a seeded history of creating, changing, retargeting, closing and dropping derived objects over long-lived sources, with failing and closing observers; non-trivial: at least one derived object was closed or one item removed while the source lived on."
    shrink_lists = ("ops",)

    def gen(self, rng, tier):
        r = rng.random
        ops = []
        focus = rng.choice(("all", "all", "lists", "binds", "tree", "model"))
        for _ in range(rng.randrange(4, 26 if tier == "quick" else 70)):
            w = [(0, "nothing")]
            if focus in ("all", "lists"):
                w += [(3, "list"), (3, "ins"), (3, "del"), (2, "kid"), (2, "kiddel"), (1.5, "touch"), (1.5, "switch"), (1, "filter"), (0.7, "group"), (0.7, "select"), (0.5, "unselect"), (3, "close"), (0.3, "clear")]
            if focus in ("all", "binds"):
                w += [(3, "bind"), (3, "value"), (3, "close"), (1, "back"), (1, "watch"), (1, "ins"), (1, "del")]
            if focus in ("all", "tree"):
                w += [(1.5, "recorder"), (2, "grow"), (1.5, "cut"), (1, "prop"), (1, "head"), (1.5, "close"), (0.5, "apply")]
            if focus in ("all", "model"):
                w += [(2, "sub"), (1.5, "subdel"), (1, "field"), (0.5, "load"), (1, "component"), (1, "uncomponent")]
            ops.append([weighted(rng, w), rng.randrange(1000), rng.randrange(1000), rng.randrange(1000), r() < 0.3])
        return dict(ops=ops, order=rng.randrange(1000))

    def nontrivial(self, plan, o):
        return o.stats.get("let_go", 0) > 0

    def run(self, sim, plan):
        m = self.m
        B, LM, M, S, R, P, O, G, E = (m[x] for x in ("Binding", "ListModel", "Model", "StructuredModel", "Recorder", "Persistence", "Observable", "Registry", "Event"))

        class Kid:
            def __init__(self, n):
                self.n = n
                self.item_changed_event = E.Event()

        class Item(LM.ListModel):
            def __init__(self, n):
                super().__init__("kids")
                self.n = n
                self.item_changed_event = E.Event()

        class Part:
            def __init__(self, n):
                self.x = n

        class Target:
            """a user interface element"""

            def __init__(self, fails=False, victim=None):
                self.fails, self.victim = fails, victim

            def set(self, *args):
                if self.victim is not None:
                    d, self.victim = self.victim, None
                    close(d)
                if self.fails:
                    sim.count("fault.observer")
                    raise Injected("target")

        class Component:
            pass

        Node = c24.make_class(P, O, False)
        lists = [LM.ListModel("items"), LM.ListModel("items")]
        values = [M.PropertyModel(1), M.PropertyModel((1, 2)), M.PropertyModel(Part(1))]
        tree = Node()
        row = S.define_record("Q", [S.define_field("w", S.INT, default=2), S.define_field("cells", S.define_array(S.INT), default=[])])
        schema = S.define_record("R", [S.define_field("v", S.INT, default=1), S.define_field("rows", S.define_array(row), default=[])])
        record = S.build_model(schema)
        derived = []  # dict(kind, obj, sources, keep)
        gone = []  # (what, weak reference)
        own = []  # listeners of the application
        comps = []
        failing = dict(on=False)
        counter = [0]

        def number():
            counter[0] += 1
            return counter[0]

        def let_go(what, obj):
            sim.count("let_go")
            gone.append((what, weakref.ref(obj)))

        def watch(obj, name, fn):
            own.append((weakref.ref(obj), name))
            return getattr(obj, name).listen(fn)

        def opened(kind=None):
            return [d for d in derived if not d["closed"] and (kind is None or d["kind"] in kind)]

        def leaves():
            used = {id(d["source"]) for d in opened()}
            return [d for d in opened() if id(d["obj"]) not in used]

        def close(d):
            if d["closed"]:
                return
            sim.log("close", d["kind"])
            d["closed"] = True
            d["obj"].close()
            let_go(f"a closed {d['kind']}", d["obj"])
            for s in d["kept"]:
                let_go("a selection of a closed list", s)
            d.update(obj=None, source=None, kept=[], target=None, tokens=None)

        def sources():
            out = [("list", x) for x in lists] + [("value model", x) for x in values]
            out += [("a " + d["kind"], d["obj"]) for d in opened(LISTS)]
            return out

        def nodes():
            return list(c24.walk_nodes(tree))

        def counts(obj):
            out = {}
            for name in EVENTS:
                e = getattr(obj, name, None)
                if e is not None:
                    out[name] = e.listener_count - sum(1 for ref, n in own if n == name and ref() is obj)
            return out

        def quiet(what, obj, names=EVENTS):
            for name, c in counts(obj).items():
                if name in names:
                    sim.check(c == 0, "still-listening", lambda: f"{c} listener(s) left on {name} of {what}")

        def check():
            used = {id(d["source"]) for d in opened()}
            for what, x in sources():
                if id(x) not in used:
                    quiet(f"{what}, which nothing open is made from", x)
            watching = [d for d in opened(("filt", "flat"))]
            if not watching:
                for x in (i for lst in lists for i in lst.items):
                    quiet("an item no open list shows", x)
                    for k in x.kids:
                        quiet("an item no open list shows", k)
            if not opened(("recorder",)):
                for x in nodes():
                    quiet("an object nothing records", x)

        def pick(lst, n):
            return lst[n % len(lst)] if lst else None

        def key_of(src):
            return "items"

        def add(kind, obj, source, target=None, tokens=()):
            derived.append(dict(kind=kind, obj=obj, source=source, target=target, tokens=list(tokens), closed=False, kept=[]))
            return derived[-1]

        def accepts(item):
            if failing["on"]:
                failing["on"] = False
                sim.count("fault.filter")
                raise Injected("filter")
            return True

        def do(op):
            k, a, b, c, bad = op
            sim.log("op", k)
            if k == "list" and len(opened()) < 7:
                kind = LISTS[b % 3]
                flats = [d["obj"] for d in opened(("flat",))]
                if kind == "flat":
                    src = pick(lists + [d["obj"] for d in opened(("filt",)) if not d.get("kids")], a)
                    obj = LM.FlattenedListModel(container=src, master_items_key="items", child_items_key="kids", items_key="items")
                else:
                    src = pick(lists + [d["obj"] for d in opened(LISTS)], a)
                    cls = LM.FilteredListModel if kind == "filt" else LM.MappedListModel
                    obj = cls(container=src, items_key="items", **(dict(master_items_key="items", map_fn=lambda x: x) if kind == "mapped" else {}))
                if kind == "filt" and c % 2:
                    obj.filter = LM.PredicateFilter(accepts)
                t = Target(bad)
                d = add(kind, obj, src, t)
                d["kids"] = kind == "flat" or any(x["obj"] is src and x["kids"] for x in opened(LISTS))
                d["tokens"] = [watch(obj, "item_inserted_event", t.set), watch(obj, "item_removed_event", t.set)]
            elif k == "bind" and len(opened()) < 7:
                kind = BINDS[b % 4]
                t = Target(bad, pick(opened(BINDS), c) if c % 5 == 0 else None)
                if kind == "lbind":
                    src = pick(lists + [d["obj"] for d in opened(LISTS)], a)
                    obj = B.ListBinding(src, "items")
                    obj.inserter = t.set
                    obj.remover = t.set
                    t.victim = None
                else:
                    src = values[{"pbind": a % 3, "tbind": 1, "abind": 2}[kind]]
                    obj = B.PropertyBinding(src, "value") if kind == "pbind" else B.TuplePropertyBinding(src, "value", a % 2) if kind == "tbind" else B.PropertyAttributeBinding(src, "value", "x")
                    obj.target_setter = t.set
                add(kind, obj, src, t)
            elif k == "watch":
                # an observer of the application which closes a binding while it is told
                v = pick(opened(("pbind", "abind", "tbind")), a)
                if v:
                    src = v["source"]
                    t = Target(bad, v)
                    own_tokens.append((t, watch(src, "property_changed_event", t.set)))
            elif k == "value":
                i = a % 3
                old = values[i].value
                values[i].value = number() if i == 0 else (number(), number()) if i == 1 else Part(number())
                if i == 2:
                    let_go("a replaced value", old)
            elif k == "back":
                d = pick(opened(("pbind", "tbind", "abind")), a)
                if d and not (d["kind"] == "pbind" and d["source"] is not values[0]):
                    d["obj"].update_source(number())
            elif k == "ins":
                lst = pick(lists, a)
                failing["on"] = bad
                lst.insert_item(b % (len(lst.items) + 1), Item(number()))
                failing["on"] = False
            elif k == "del":
                lst = pick(lists, a)
                if lst.items:
                    i = b % len(lst.items)
                    x = lst.items[i]
                    lst.remove_item(i)
                    quiet("a removed item", x)
                    for kid in x.kids:
                        quiet("an item of a removed item", kid)
                        let_go("an item of a removed item", kid)
                    let_go("a removed item", x)
            elif k == "clear":
                lst = pick(lists, a)
                for x in lst.items:
                    let_go("a removed item", x)
                lst.clear_items()
            elif k in ("kid", "kiddel", "touch"):
                lst = pick(lists, a)
                x = pick(lst.items, b)
                if x is None:
                    return
                if k == "kid":
                    x.insert_item(c % (len(x.kids) + 1), Kid(number()))
                elif k == "touch":
                    failing["on"] = bad
                    x.item_changed_event.fire()
                    failing["on"] = False
                elif x.kids:
                    i = c % len(x.kids)
                    kid = x.kids[i]
                    x.remove_item(i)
                    quiet("a removed item", kid)
                    let_go("a removed item", kid)
            elif k == "switch":
                # made from another list from now on
                ok = [d for d in leaves() if d["kind"] in LISTS and any(d["source"] is x for x in lists)]
                d = pick(ok, a)
                if d:
                    d["source"] = lists[b % 2]
                    d["obj"].container = d["source"]
            elif k == "filter":
                d = pick(opened(("filt",)), a)
                if d:
                    if b % 3 == 0:
                        old = d["obj"].filter
                        d["obj"].filter = LM.PredicateFilter(accepts)
                        let_go("a replaced filter", old)
                    elif b % 3 == 1:
                        d["obj"].sort_key = (lambda x: -x.n) if c % 2 else None
                    else:
                        d["obj"].sort_reverse = not d["obj"].sort_reverse
            elif k == "group":
                d = pick(opened(("filt",)), a)
                lst = pick(lists, b)
                if d:
                    with d["obj"].changes():
                        if lst.items:
                            x = lst.items[c % len(lst.items)]
                            lst.remove_item(c % len(lst.items))
                            let_go("an item removed in a grouped change", x)
                            x = None
                        lst.append_item(Item(number()))
            elif k == "select":
                d = pick(opened(LISTS), a)
                if d:
                    s = d["obj"].make_selection()
                    d["kept"].append(s)
                    if d["obj"].items:
                        s.set(b % len(d["obj"].items))
            elif k == "unselect":
                d = pick([d for d in opened(LISTS) if d["kept"]], a)
                if d:
                    s = d["kept"].pop(b % len(d["kept"]))
                    d["obj"].release_selection(s)
                    let_go("a released selection", s)
            elif k == "close":
                d = pick(leaves(), a)
                if d:
                    close(d)
            elif k == "recorder" and len(opened(("recorder",))) < 3:
                add("recorder", R.Recorder(tree), tree)["start"] = copy.deepcopy(tree)
            elif k == "grow":
                x = pick(nodes(), a)
                if len(nodes()) < 9:
                    x.insert_item("kids", b % (x.item_count("kids") + 1), Node())
            elif k == "head":
                x = pick(nodes(), a)
                if len(nodes()) < 9:
                    old = x.head
                    x.set_item("head", Node() if b % 3 else None)
                    if old is not None:
                        for y in c24.walk_nodes(old):
                            quiet("a replaced object", y)
                            let_go("a replaced object", y)
            elif k == "cut":
                x = pick([x for x in nodes() if x.item_count("kids")], a)
                if x is not None:
                    y = x.kids[b % x.item_count("kids")]
                    x.remove_item("kids", y)
                    for z in c24.walk_nodes(y):
                        quiet("a removed object", z)
                        let_go("a removed object", z)
            elif k == "prop":
                pick(nodes(), a).a = [b]
            elif k == "apply":
                d = pick(opened(("recorder",)), a)
                if d:
                    x = copy.deepcopy(d["start"])
                    d["obj"].apply(x)
                    for y in c24.walk_nodes(x):
                        quiet("an object a log was applied to", y)
                        let_go("an object a log was applied to", y)
            elif k == "sub":
                rows = record.rows_model
                if len(rows.items) < 6:
                    rows.insert_item(a % (len(rows.items) + 1), S.build_model(row))
            elif k == "subdel":
                rows = record.rows_model
                if rows.items:
                    i = a % len(rows.items)
                    x = rows.items[i]
                    rows.remove_item(i)
                    quiet("a removed sub-model", x)
                    let_go("a removed sub-model", x)
                    let_go("an array of a removed sub-model", x.cells_model)
            elif k == "field":
                x = pick(record.rows_model.items, a)
                if x is not None:
                    x.w = number()
                    x.cells.insert(0, number())
            elif k == "load":
                rows = record.rows_model
                n = a % 4
                for x in rows.items[n:]:
                    let_go("a sub-model dropped by loading", x)
                x = None
                record.from_dict_value({"v": 1, "rows": [{"w": i} for i in range(n)]})
            elif k == "component":
                x = Component()
                types = {"sim-a"} if b % 2 else {"sim-a", "sim-b"}
                G.register_component(x, types)
                comps.append((x, types))
            elif k == "uncomponent" and comps:
                x, types = comps.pop(a % len(comps))
                if b % 2:
                    for t in sorted(types):
                        G.unregister_component(x, {t})
                else:
                    G.unregister_component(x)
                let_go("an unregistered component", x)
            check()

        own_tokens = []
        manager = G.ComponentManager()
        manager._component_types.clear()
        manager._components_by_type.clear()

        def reclaimed(when):
            gc.collect()
            for what, ref in gone:
                sim.check(ref() is None, "kept", lambda: f"{what} is kept {when}")

        for op in plan["ops"]:
            do(op)
        reclaimed("while other things are open")
        n = plan["order"]
        while leaves():
            close(pick(leaves(), n))
            check()
        for x, types in comps:
            G.unregister_component(x)
            let_go("an unregistered component", x)
        x = None
        comps.clear()
        reclaimed("after everything is closed")
