"""C24: applying a recorded change log to a copy reproduces the changes."""
import copy
import json

from dsim.kit import Injected, ScenarioBase, weighted
from .persist import ITEMS, RELS, Storage, StorageError, walk_nodes

PROPS = ("a", "b", "c", "g", "n", "ro")
UNRECORDED = ("n", "ro")


def make_class(P, O, keys):
    class Node(O.Observable, P.PersistentObject):
        """an application object: persistent, and announcing its changes"""

        def __init__(self):
            super().__init__()
            self.define_type("node")
            self.define_property("a", changed=self.prop_changed, key="stored_a" if keys else None)
            self.define_property("b", 0, validate=lambda v: int(v), changed=self.prop_changed)
            self.define_property("c", copy_on_read=True, changed=self.prop_changed)
            self.define_property("n", 1, recordable=False, changed=self.prop_changed)
            self.define_property("ro", 7, read_only=True, changed=self.prop_changed)
            self.define_property("g", hidden=True, changed=self.prop_changed)
            for i in ITEMS:
                self.define_item(i, factory, self.item_changed)
            for k in RELS:
                self.define_relationship(k, factory, self.inserted, self.removed, key="stored_" + k if keys else None)

        # a property the class gives access to itself
        @property
        def g(self):
            return self._get_persistent_property_value("g")

        @g.setter
        def g(self, value):
            self._set_persistent_property_value("g", value)

        def prop_changed(self, name, value):
            self.notify_property_changed(name)

        def item_changed(self, name, old, new):
            if new is not None:
                self.notify_set_item(name, new)
            elif old is not None:
                self.notify_clear_item(name)

        def inserted(self, name, index, item):
            self.notify_insert_item(name, item, index)

        def removed(self, name, index, item):
            self.notify_remove_item(name, item, index)

    def factory(lookup_id):
        return Node()

    return Node


def value_for(prop, n):
    if prop in ("a", "g"):
        return (None, 1, "s", [n, {"x": [n]}], {"k": [n]}, False, 0)[n % 7]
    if prop == "b":
        return n
    if prop == "c":
        return {"list": [n]} if n else None
    return n + 10


def contents(node, n=False):
    """what a recording reproduces: everything but identities and properties that are not recorded"""
    r = {p: copy.deepcopy(getattr(node, p)) for p in PROPS if p not in UNRECORDED or n}
    r["is"] = "object"
    for i in ITEMS:
        x = node.get_item(i)
        r[i] = contents(x, n) if x is not None else None
    for k in RELS:
        r[k] = [contents(x, n) for x in getattr(node, k)]
    return r


def difference(a, b, path="root"):
    if isinstance(a, dict) and isinstance(b, dict) and "is" in a and "is" in b:
        for k in sorted(a):
            d = difference(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and path.rsplit(".", 1)[-1] in RELS:
        if len(a) != len(b):
            return f"{path} holds {len(a)} objects, expected {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if a != b or type(a) is not type(b):
        short = lambda v: "an object" if isinstance(v, dict) and "is" in v else repr(v)
        return f"{path} is {short(a)}, expected {short(b)}"


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.Recorder", "nion.utils.Persistence (PersistentObject)", "nion.utils.Observable", "nion.utils.Event"], "stub": ["application objects and observers (scripted: failing, changing the tree)", "storage handler of the replay target (simulated, with write errors)", "uuid source (simulated)"]}
    rule = "A case is a seeded history of changes anywhere in a tree of objects with recorders started and closed at any point, failing and editing observers, replays interrupted by storage errors, and replays on copies and on stored trees; non-trivial: at least two recorded changes were replayed."
    shrink_lists = ("ops", "make")

    def gen(self, rng, tier):
        r = rng.random
        if r() < 0.1:
            ops = [[weighted(rng, [(5, "set"), (4, "insert"), (2, "remove"), (2, "item"), (1, "clear"), (0.7, "close"), (0.7, "apply")]), r(), rng.randrange(7)] for _ in range(rng.randrange(2, 14))]
            return dict(make=[], ops=ops, keys=False, leaf=True)
        pc = rng.choice((0, 0, 0.2, 0.5))

        def op():
            k = weighted(rng, [(7, "set"), (5, "insert"), (3.5, "remove"), (2.5, "item"), (1.5, "clearitem"), (1.5, "reinsert"), (1, "tree")])
            return [k, r(), r(), rng.choice(PROPS), rng.randrange(7), rng.choice(RELS), rng.choice(ITEMS), rng.choice(("raise", "edit", "insert", "remove")) if r() < pc else None]
        make = [op() for _ in range(rng.randrange(0, 10))]
        ops = []
        for _ in range(rng.randrange(2, 25 if tier == "quick" else 60)):
            x = weighted(rng, [(14, "op"), (1.5, "apply"), (0.8, "record"), (0.7, "close"), (0.6, "away")])
            ops.append(op() if x == "op" else [x, r(), r(), None, rng.randrange(7), None, None, None])
        if r() < 0.03:
            make[:] = [["insert", r() * 0.15, r(), "a", rng.randrange(7), rng.choice(RELS), "head", None] for _ in range(rng.randrange(15, 60))] + make
        return dict(make=make, ops=ops, wide=len(make) > 12, keys=r() < 0.5)

    def nontrivial(self, plan, o):
        return o.stats.get("replayed", 0) > 1

    def run_leaf(self, sim, plan):
        """objects of several classes, some with no parts of their own"""
        P, R, O = self.m["Persistence"], self.m["Recorder"], self.m["Observable"]

        class Leaf(O.Observable, P.PersistentObject):
            def __init__(self):
                super().__init__()
                self.define_type("leaf")
                self.define_property("v", 0, changed=lambda name, value: self.notify_property_changed(name))

        class Tree(O.Observable, P.PersistentObject):
            def __init__(self):
                super().__init__()
                self.define_type("tree")
                self.define_item("one", lambda lookup: Leaf(), self.item_changed)
                self.define_relationship("many", lambda lookup: Leaf(), lambda name, index, item: self.notify_insert_item(name, item, index), lambda name, index, item: self.notify_remove_item(name, item, index))

            def item_changed(self, name, old, new):
                if new is not None:
                    self.notify_set_item(name, new)
                elif old is not None:
                    self.notify_clear_item(name)

        def state(t):
            return (t.one.v if t.one else None, [x.v for x in t.many])

        tree = Tree()
        keep = []
        rec = None
        n = 0
        closed = None

        def replay():
            target = Tree()
            target.begin_reading()
            target.read_from_dict(json.loads(base))
            target.finish_reading()
            rec.apply(target)
            want = closed or state(tree)
            sim.check(state(target) == want, "wrong-replay", lambda: f"after applying the recording to a copy it holds {state(target)}, expected {want}")
            for x in list(target.many) + ([target.one] if target.one else []):
                x.v = -1  # the copy's own
        for op, f, value in plan["ops"]:
            if rec is None and (n >= len(plan["ops"]) // 3):
                base = json.dumps(tree.write_to_dict())
                rec = R.Recorder(tree)
            n += 1
            sim.log(op)
            leaves = list(tree.many) + ([tree.one] if tree.one else [])
            if op == "set" and leaves:
                leaves[min(int(f * len(leaves)), len(leaves) - 1)].v = [value] if value == 6 else value
            elif op == "insert":
                x = Leaf()
                x.v = value
                keep.append(x)
                tree.insert_item("many", int(f * (len(tree.many) + 1)), x)
            elif op == "remove" and tree.many:
                tree.remove_item("many", tree.many[min(int(f * len(tree.many)), len(tree.many) - 1)])
            elif op == "item":
                x = Leaf()
                x.v = value
                keep.append(x)
                tree.set_item("one", x)
            elif op == "clear":
                tree.set_item("one", None)
            elif op == "close" and rec and not closed:
                rec.close()
                closed = copy.deepcopy(state(tree))
            elif op == "apply" and rec:
                replay()
            sim.count("replayed")
        if rec:
            replay()
            if not closed:
                rec.close()
                closed = copy.deepcopy(state(tree))
            for x in keep:
                x.v = 70  # unrecorded
            replay()

    def run(self, sim, plan):
        if plan.get("leaf"):
            return self.run_leaf(sim, plan)
        P, R = self.m["Persistence"], self.m["Recorder"]
        Node = make_class(P, self.m["Observable"], plan["keys"])
        st = dict(act=None, changes=0)
        objects = []
        tokens = []
        recs = []

        def watch(node):
            """an observer like any other, attached before the recorder"""
            def note(*a):
                if st["act"] == "raise":
                    sim.count("fault.observer_exception")
                    raise Injected("observer")
                if st["act"] == "edit" and not st["busy"]:
                    st["busy"] = True
                    sim.count("fault.observer_edits")
                    node.b = node.b + 1
                    st["busy"] = False
            for e in ("property_changed_event", "item_set_event", "item_cleared_event", "item_inserted_event", "item_removed_event"):
                tokens.append(getattr(node, e).listen(note))

        def make():
            x = Node()
            objects.append(x)
            watch(x)
            return x

        root = make()

        def late(*a):
            """an observer attached after the recorder: it may change the structure"""
            if st["act"] in ("insert", "remove") and not st["busy"]:
                st["busy"] = True
                sim.count("fault.observer_edits")
                if st["act"] == "insert" and len(list(walk_nodes(root))) < 80:
                    root.insert_item("kids", 0, make())
                elif st["act"] == "remove" and root.kids:
                    root.remove_item("kids", root.kids[0])
                st["busy"] = False

        def record():
            base = json.dumps(root.write_to_dict())
            rec = dict(base=base, twin=copy.deepcopy(root), recorder=R.Recorder(root), end=None, root_n=(root.n, root.ro), changes=st["changes"])
            recs.append(rec)
            st["late"] = None  # attached after every recorder
            st["late"] = [getattr(root, e).listen(late) for e in ("property_changed_event", "item_inserted_event", "item_removed_event")]
            sim.log("record", len(recs))
            return rec

        def read(text):
            n = Node()
            n.begin_reading()
            n.read_from_dict(json.loads(text))
            n.finish_reading()
            return n

        def replay(rec, i, how):
            want = rec["end"] or contents(root)
            before = contents(root, True)
            target = copy.deepcopy(rec["twin"]) if how % 2 else read(rec["base"])
            sim.log("apply", i, how)
            if how % 3 == 1:
                # the replay is interrupted; the log is as good as before for another copy
                broken = read(rec["base"])
                n = [how % 4]

                def fault():
                    n[0] -= 1
                    return "error" if n[0] < 0 else None
                ctx = P.PersistentObjectContext()
                ctx._set_persistent_storage_for_object(broken, Storage(sim, rec["base"], fault))
                broken.persistent_object_context = ctx
                try:
                    rec["recorder"].apply(broken)
                except StorageError:
                    pass
            storage = None
            if how % 3 == 2:
                target = read(rec["base"])
                ctx = P.PersistentObjectContext()
                storage = Storage(sim, rec["base"], lambda: None)
                ctx._set_persistent_storage_for_object(target, storage)
                target.persistent_object_context = ctx
            rec["recorder"].apply(target)
            sim.count("replayed", st["changes"] - rec["changes"])
            d = difference(contents(target), want)
            sim.check(d is None, "wrong-replay", lambda: f"after applying recording {i} ({'closed' if rec['end'] else 'open'}) to a copy: {d}")
            if storage is not None:
                d = difference(contents(read(storage.durable)), want)
                sim.check(d is None, "wrong-replay", lambda: f"after applying recording {i} to a stored copy and re-reading it: {d}")
            sim.check((target.n, target.ro) == rec["root_n"], "not-recordable", lambda: f"applying recording {i} changed a property that is not to be recorded")
            mine = {id(x) for x in walk_nodes(root)}
            sim.check(not any(id(x) in mine for x in walk_nodes(target)), "shared", lambda: f"after applying recording {i} the copy shares objects with the original")
            # neither later changes of the copy nor the replay touch the original
            for x in list(walk_nodes(target)):
                if isinstance(x.a, list):
                    x.a.append("junk")
                x.b = 99
            d = difference(contents(root, True), before)
            sim.check(d is None, "original-changed", lambda: f"applying recording {i} or changing the copy changed the original: {d}")

        def close(rec):
            sim.log("close")
            rec["recorder"].close()
            rec["end"] = contents(root)

        def change(op):
            k, fa, fb, prop, n, rel, item, act = op
            tree = list(walk_nodes(root))
            node = tree[min(int(fa * len(tree)), len(tree) - 1)]
            full = len(tree) > (70 if plan["wide"] else 12)
            st.update(act=act, busy=False)
            sim.log("op", k)
            st["changes"] += 1
            if k == "set":
                if prop == "ro":
                    node._set_persistent_property_value("ro", value_for(prop, n))  # read-only, but not for the class
                else:
                    setattr(node, prop, value_for(prop, n))
            elif k in ("insert", "tree") and not full:
                new = make()
                new.b = n
                if k == "tree":
                    new.append_item(rel, make())
                    new.set_item(item, make())
                    new.get_item(item).a = [n]
                node.insert_item(rel, int(fb * (node.item_count(rel) + 1)), new)
            elif k == "remove" and node.item_count(rel):
                node.remove_item(rel, getattr(node, rel)[min(int(fb * node.item_count(rel)), node.item_count(rel) - 1)])
            elif k == "item" and not full:
                new = make()
                new.a = value_for("a", n)
                node.set_item(item, new)
            elif k == "clearitem":
                node.set_item(item, None)
            elif k == "reinsert" and not full:
                loose = [x for x in objects if x is not root and x.persistent_object_parent is None and x.b >= 0]
                if loose:
                    x = loose[min(int(fb * len(loose)), len(loose) - 1)]
                    if n % 2:
                        node.insert_item(rel, 0, x)
                    else:
                        node.set_item(item, x)
            st["act"] = None

        for op in plan["make"]:
            change(op[:7] + [None])
        record()
        for op in plan["ops"]:
            k, fa = op[0], op[1]
            if k == "apply":
                i = min(int(fa * len(recs)), len(recs) - 1)
                replay(recs[i], i, op[4])
            elif k == "record":
                if len(recs) < 4:
                    record()
            elif k == "close":
                open_ = [x for x in recs if x["end"] is None]
                if open_:
                    close(open_[min(int(fa * len(open_)), len(open_) - 1)])
            elif k == "away":
                # an object out of the tree changes unrecorded
                for x in objects:
                    if x is not root and x.persistent_object_parent is None:
                        x.a = op[4]
            else:
                change(op)
        for i, rec in enumerate(recs):
            for how in range(3):
                replay(rec, i, how)
            if rec["end"] is None:
                close(rec)
        # a closed recording is not affected by what comes later
        root.b = 77
        root.insert_item("kids", 0, make())
        for i, rec in enumerate(recs):
            replay(rec, i, 0)
