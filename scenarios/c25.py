"""C25: copies of persistent object trees are complete, detached, independent and storable."""
import copy
import json

from dsim.kit import ScenarioBase, weighted
from . import persist
from .persist import PROPS, ITEMS, RELS, Blob, Crash, StorageError, Storage, difference, new_ref, snapshot, value_for, walk, walk_nodes


def spoil(v):
    """change a value in place, as deep as it goes"""
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.append("spoilt")
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v["spoilt"] = True
    elif isinstance(v, Blob):
        v.v += 100


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.Persistence (PersistentObject, PersistentObjectContext)", "nion.utils.Event"], "stub": ["storage handlers (simulated document stores with crash points and write errors)", "clock and uuid source (simulated)", "application objects"]}
    rule = "A case is a seeded history of building, copying, changing, inserting and removing objects and copies over two stored trees and any number of loose ones, with storage errors and crashes while copies are inserted; non-trivial: at least one object with contents was copied and something was changed afterwards."
    shrink_lists = ("ops",)

    def gen(self, rng, tier):
        r = rng.random
        pf = rng.choice((0, 0.1, 0.4))
        ops = []
        wide = r() < 0.1
        for _ in range(rng.randrange(4, 24 if tier == "quick" else 60)):
            k = weighted(rng, [(6, "set"), (9 if wide else 3, "new"), (4, "copy"), (3, "adopt"), (2, "remove"), (1.5, "item"), (1.5, "spoil"), (1, "secret"), (0.6, "pair"), (0.4, "restart")])
            fault = rng.choice(("error", "crash-before", "crash-after")) if r() < pf else None
            ops.append([k, r() * (0.2 if wide and k in ("new", "copy") else 1), r(), r(), rng.choice(PROPS), rng.randrange(7), RELS[0] if wide and k == "new" else rng.choice(RELS), rng.choice(ITEMS), fault])
        return dict(ops=ops, limit=30 if wide else 9, keys=r() < 0.5, own=r() < 0.3, bare=r() < 0.3)

    def nontrivial(self, plan, o):
        return o.stats.get("copies", 0) > 0 and o.stats.get("changes", 0) > 1

    def run(self, sim, plan):
        P = self.m["Persistence"]
        log = []
        Node = persist.make_node_class(P, dict(keys=plan["keys"], own=plan["own"], bare=plan["bare"]), log)
        st = dict(fault=None)
        trees = []  # dict(node, ref, storage)
        w = {}

        def fault():
            f, st["fault"] = st["fault"], None
            return f

        def read(text):
            n = Node()
            n.begin_reading()
            n.read_from_dict(json.loads(text))
            n.finish_reading()
            return n

        def start(texts, refs):
            trees.clear()
            w["ctx"] = ctx = P.PersistentObjectContext()
            for text, ref in zip(texts, refs):
                storage = Storage(sim, text, fault)
                node = read(text)
                ctx._set_persistent_storage_for_object(node, storage)
                node.persistent_object_context = ctx
                trees.append(dict(node=node, ref=ref, storage=storage))

        def find(ref_root, uid):
            for x in walk(ref_root):
                if x["uuid"] == uid:
                    return x

        def places(loose=None):
            """every object there is, with its tree"""
            return [(t, x) for t in trees if loose is None or (t["storage"] is None) == loose for x in walk_nodes(t["node"])]

        def pick(lst, f):
            return lst[min(int(f * len(lst)), len(lst) - 1)]

        def check(what):
            seen = set()
            for i, t in enumerate(trees):
                d = difference(snapshot(t["node"]), t["ref"])
                sim.check(d is None, "wrong-object", lambda: f"after {what}, tree {i}: {d}")
                if t["storage"] is not None:
                    d = difference(snapshot(read(t["storage"].durable)), t["ref"])
                    sim.check(d is None, "not-stored", lambda: f"after {what}, the storage of tree {i}: {d}")
                for x in walk_nodes(t["node"]):
                    sim.check(x.uuid not in seen, "identity", lambda: f"after {what} two objects have one identity")
                    seen.add(x.uuid)
                    own = w["ctx"] if t["storage"] is not None else None
                    sim.check(x.persistent_object_context is own, "wrong-context", lambda: f"after {what} an object of tree {i} has {'no' if own else 'a'} context")
                    found = w["ctx"].get_registered_object(x.uuid)
                    sim.check(found is (x if own else None), "registration", lambda: f"after {what} an object of tree {i} ({'stored' if own else 'loose'}) is {'not ' if own else ''}registered")
                sim.check(not t["node"].persistent_object_parent, "wrong-owner", lambda: f"after {what} the top of tree {i} has an owner")

        def renewed(got, ref):
            """the reference contents with the identities of the copy"""
            out = copy.deepcopy(ref)

            def go(a, b):
                b["uuid"] = a["uuid"]
                for i in ITEMS:
                    if a[i] is not None and b[i] is not None:
                        go(a[i], b[i])
                for k in RELS:
                    for x, y in zip(a[k], b[k]):
                        go(x, y)
            go(got, out)
            return out

        def copied(node, ref, twin, what):
            sim.count("copies")
            got = snapshot(twin)
            want = renewed(got, ref)
            d = difference(got, want)
            sim.check(d is None, "bad-copy", lambda: f"{what} differs: {d}")
            mine = {id(x) for x in walk_nodes(node)}
            sim.check(not any(id(x) in mine for x in walk_nodes(twin)), "shared", f"{what} shares objects with its original")
            for x, y in zip(walk_nodes(node), walk_nodes(twin)):
                h1, h2 = x._get_persistent_property_value("h"), y._get_persistent_property_value("h")
                sim.check(h1 == h2, "bad-copy", lambda: f"{what} has {h2!r} in a hidden property, the original {h1!r}")
            trees.append(dict(node=twin, ref=want, storage=None))

        def quietly(node, fn):
            """copying is nothing that happens to the objects that are there"""
            counts = [(x, x.modified_count, x.modified_state, x.modified, x.contexts, x.persistent_object_parent) for _, x in places()]
            texts = [(t["storage"], t["storage"].durable, len(t["storage"].calls)) for t in trees if t["storage"] is not None]
            told = []
            for x in walk_nodes(node):
                w["ctx"].subscribe(x.uuid, told.append, told.append)
            n = len(told)
            log.clear()
            r = fn()
            there = {id(c[0]) for c in counts}
            sim.check(len(told) == n, "told", "copying told subscribers of the original that it came or went")
            sim.check(not any(id(e[1]) in there for e in log), "told", "copying called the hooks of an object that was not changed")
            for x, c, s, m, k, p in counts:
                sim.check((x.modified_count, x.modified_state, x.modified, x.contexts, x.persistent_object_parent) == (c, s, m, k, p), "original-changed", "copying changed the modification count, state or time, the owner or the context of an object")
            for s, text, calls in texts:
                sim.check(s.durable == text and len(s.calls) == calls, "spurious-write", "copying wrote to a storage")
            return r

        def attempt(what, tree, fn, apply):
            """a change of a stored or loose tree; apply: the same on its reference"""
            sim.count("changes")
            before = tree["storage"].durable if tree["storage"] is not None else None
            try:
                fn()
            except Crash:
                done = copy.deepcopy(tree["ref"])
                apply(done)
                got = snapshot(read(tree["storage"].durable))
                d1, d2 = difference(got, tree["ref"]), difference(got, done)
                sim.check(d1 is None or d2 is None, "partial-change", lambda: f"after a crash in {what} the storage holds neither the tree before ({d1}) nor after ({d2})")
                stored = [t for t in trees if t["storage"] is not None]
                refs = [(done if d2 is None else t["ref"]) if t is tree else t["ref"] for t in stored]
                start([t["storage"].durable for t in stored], refs)
                return None
            except StorageError:
                sim.check(tree["storage"].durable == before, "partial-change", lambda: f"the storage refused {what} but changed")
                return False
            st["fault"] = None
            apply(tree["ref"])
            return True

        def do(op):
            k, fa, fb, fc, prop, n, rel, item, f = op
            st["fault"] = None
            sim.now += 0.5
            sim.log("op", k)
            if k == "set":
                t, node = pick(places(), fa)
                v = value_for(prop, n)
                uid = node.uuid
                attempt(f"setting {prop}", t, lambda: setattr(node, prop, v), lambda d: find(d, uid).__setitem__(prop, copy.deepcopy(v)))
            elif k == "new":
                t, node = pick(places(), fa)
                if len(list(walk_nodes(t["node"]))) > plan["limit"]:
                    return
                new = Node()
                nr = new_ref(new.uuid)
                if n % 2:
                    new.a = nr["a"] = [n]
                uid = node.uuid
                i = int(fb * (node.item_count(rel) + 1))
                attempt("inserting", t, lambda: node.insert_item(rel, i, new), lambda d: find(d, uid)[rel].insert(i, copy.deepcopy(nr)))
            elif k == "item":
                t, node = pick(places(), fa)
                old, ref = node.get_item(item), find(t["ref"], node.uuid)
                uid = node.uuid
                if len(list(walk_nodes(t["node"]))) > plan["limit"]:
                    return
                if old is None or n % 2:
                    new = Node()
                    new.f = {"list": [n]}
                    nr = dict(new_ref(new.uuid), f={"list": [n]})
                else:
                    new = nr = None
                gone = ref[item]
                if attempt("setting an item", t, lambda: node.set_item(item, new), lambda d: find(d, uid).__setitem__(item, copy.deepcopy(nr))) and old is not None:
                    trees.append(dict(node=old, ref=gone, storage=None))
            elif k == "remove":
                t, node = pick(places(), fa)
                if node.item_count(rel):
                    i = min(int(fb * node.item_count(rel)), node.item_count(rel) - 1)
                    victim, uid = getattr(node, rel)[i], node.uuid
                    gone = find(t["ref"], uid)[rel][i]
                    if attempt("removing", t, lambda: node.remove_item(rel, victim), lambda d: find(d, uid)[rel].pop(i)):
                        trees.append(dict(node=victim, ref=gone, storage=None))
            elif k == "copy" and len(trees) < 9:
                t, node = pick(places(), fa)
                if len(list(walk_nodes(node))) > plan["limit"]:
                    return
                twin = quietly(node, lambda: copy.deepcopy(node))
                copied(node, find(t["ref"], node.uuid), twin, "a copy")
            elif k == "pair" and len(trees) < 8:
                # copied together with something else of the application
                t, node = pick(places(), fa)
                below = list(walk_nodes(node))
                j = min(int(fb * len(below)), len(below) - 1)
                group = {"x": node, "y": [below[j], n]} if n % 2 else {"y": (n, below[j]), "x": node}
                pair = quietly(node, lambda: copy.deepcopy(group))
                sim.check(list(walk_nodes(pair["x"]))[j] is pair["y"][1 - n % 2], "bad-copy", "an object copied together with another reference to it became two")
                copied(node, find(t["ref"], node.uuid), pair["x"], "a copy")
            elif k == "adopt":
                loose = [t for t in trees if t["storage"] is None]
                if loose:
                    s = pick(loose, fa)
                    spots = [(t, x) for t, x in places() if t is not s and len(list(walk_nodes(t["node"]))) < plan["limit"]]
                    if not spots:
                        return
                    t, node = pick(spots, fb)
                    uid, new = node.uuid, s["node"]
                    if t["storage"] is not None:
                        st["fault"] = f
                    if n % 3 and node.get_item(item) is None:
                        r = attempt("setting an item to a copy", t, lambda: node.set_item(item, new), lambda d: find(d, uid).__setitem__(item, copy.deepcopy(s["ref"])))
                    else:
                        i = int(fc * (node.item_count(rel) + 1))
                        r = attempt("inserting a copy", t, lambda: node.insert_item(rel, i, new), lambda d: find(d, uid)[rel].insert(i, copy.deepcopy(s["ref"])))
                    if r:
                        trees[:] = [x for x in trees if x is not s]
            elif k == "spoil":
                # values of a loose object change in place; no other object shows it
                loose = places(True)
                if loose:
                    t, node = pick(loose, fa)
                    ref = find(t["ref"], node.uuid)
                    spoil(node.f)
                    for p in PROPS:
                        if p != "f":  # given out as a copy
                            spoil(getattr(node, p))
                            ref[p] = copy.deepcopy(getattr(node, p))
            elif k == "secret":
                # a hidden property with a default
                t, node = pick(places(), fa)
                node._set_persistent_property_value("h", [None, 0, n][n % 3])
            elif k == "restart":
                sim.count("fault.restart")
                stored = [t for t in trees if t["storage"] is not None]
                start([t["storage"].durable for t in stored], [t["ref"] for t in stored])
            check(k)

        first = [Node(), Node()]
        start([json.dumps(x.write_to_dict()) for x in first], [new_ref(x.uuid) for x in first])
        for op in plan["ops"]:
            do(op)
