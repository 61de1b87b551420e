"""C19: persistent objects survive a crash at any storage write."""
import copy
import json

from dsim.kit import Injected, ScenarioBase, weighted
from . import persist
from .persist import PROPS, ITEMS, RELS, Crash, StorageError, Storage, difference, new_ref, snapshot, value_for, walk, walk_nodes


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.Persistence (PersistentObject, PersistentObjectContext, properties, items, relationships)", "nion.utils.Event"], "stub": ["storage handler (simulated document store with crash points and write errors)", "clock and uuid source (simulated)"]}
    rule = "A case is a seeded history of changes over a nested object tree with crashes before and after storage calls, storage errors and restarts; non-trivial: at least two storage calls and one fault."
    shrink_lists = ("ops",)

    def gen(self, rng, tier):
        r = rng.random
        ops = []
        pf = rng.choice((0, 0.05, 0.15, 0.3))
        for _ in range(rng.randrange(3, 25 if tier == "quick" else 60)):
            k = weighted(rng, [(7, "set"), (5, "insert"), (3, "remove"), (3, "item"), (1, "clearitem"), (1.5, "move"), (1, "copy"), (0.7, "restart"), (0.5, "ro"), (0.5, "external"), (0.7, "extend"), (0.5, "deep"), (0.7, "alias"), (0.5, "time"), (0.06, "bulk"), (0.3, "delay"), (0.5, "next")])
            fault = [rng.choice((0, 0, 0, 1, 2)), rng.choice(("error", "crash-before", "crash-after"))] if r() < pf else None
            ops.append([k, r(), rng.choice(PROPS), rng.randrange(7), rng.choice(RELS), r(), rng.choice(ITEMS), r(), fault])
        return dict(ops=ops, keys=r() < 0.5, own=r() < 0.3)

    def nontrivial(self, plan, o):
        return o.stats.get("storage_calls", 0) > 1 and any(k.startswith("fault.") for k in o.stats)

    def run(self, sim, plan):
        P = self.m["Persistence"]
        Node = persist.make_node_class(P, dict(keys=plan["keys"], own=plan["own"]))
        st = dict(n=0, restarts=0, fault=None)

        def fault():
            """the fault of the current operation, at its n-th storage call"""
            f, n = st["fault"], st["n"]
            st["n"] += 1
            if f is not None and f[0] == n:
                st["err"] = st["err"] or f[1] == "error"
                return f[1]
            return None

        # the first start: a new document
        first = Node()
        durable = json.dumps(first.write_to_dict())
        dur = new_ref(first.uuid)  # the durable contents expected
        world = {}

        def start(durable):
            context = P.PersistentObjectContext()
            storage = Storage(sim, durable, fault)
            root = Node()
            root.begin_reading()
            root.read_from_dict(json.loads(durable))
            root.finish_reading()
            context._set_persistent_storage_for_object(root, storage)
            root.persistent_object_context = context
            world.clear()
            # another tree of the same context, with a storage of its own
            other = Node()
            other_storage = Storage(sim, json.dumps(other.write_to_dict()), lambda: None)
            context._set_persistent_storage_for_object(other, other_storage)
            other.persistent_object_context = context
            world.update(context=context, storage=storage, root=root, mem=copy.deepcopy(dur), other=other, other_storage=other_storage)
            unfinished = [x.uuid for x in walk_nodes(root) if x.finished != 1 or getattr(x, "_is_reading", False)]
            sim.check(not unfinished, "unfinished", lambda: f"after restart {st['restarts']}: {len(unfinished)} objects were not told once that reading is finished")
            d = difference(snapshot(root), dur)
            sim.check(d is None, "lost-or-damaged", lambda: f"after restart {st['restarts']}: {d}")

            def times(node, d):
                if "modified" in d:
                    sim.check(node.modified.isoformat() == d["modified"], "modified-time", lambda: f"after restart {st['restarts']}: modification time {node.modified.isoformat()}, stored {d['modified']}")
                for i in ITEMS:
                    if d.get(i):
                        times(node.get_item(i), d[i])
                for k in RELS:
                    for x, y in zip(getattr(node, k), d.get("stored_" + k) or d.get(k) or []):
                        times(x, y)
            times(root, json.loads(durable))

        def reread():
            n = Node()
            n.begin_reading()
            n.read_from_dict(json.loads(world["storage"].durable))
            n.finish_reading()
            return n

        def find(ref_root, uid):
            for x in walk(ref_root):
                if x["uuid"] == uid:
                    return x

        def check(what, deep=False):
            d = difference(snapshot(world["root"]), world["mem"])
            sim.check(d is None, "wrong-object", lambda: f"after {what}: {d}")
            d = difference(snapshot(reread()), dur)
            sim.check(d is None, "not-stored", lambda: f"after {what} the storage differs: {d}")
            if deep:
                d = difference(snapshot_dict_as_tree(world["root"]), world["mem"])
                sim.check(d is None, "not-written", lambda: f"after {what} writing to a dict and reading it differs: {d}")

        def snapshot_dict_as_tree(node):
            n = Node()
            n.begin_reading()
            n.read_from_dict(json.loads(json.dumps(node.write_to_dict())))
            n.finish_reading()
            return snapshot(n)

        def attempt(what, real, mem_ok, dur_ok):
            """run a change; apply it to the reference trees according to how it ended"""
            nonlocal dur
            before = world["storage"].durable
            st["err"] = False
            try:
                real()
            except Crash:
                # the process is gone; the interrupted change is stored entirely or not at all
                done = copy.deepcopy(dur)
                dur_ok(done)
                got = snapshot(reread())
                d1, d2 = difference(got, dur), difference(got, done)
                sim.check(d1 is None or d2 is None, "partial-change", lambda: f"after a crash in {what} the storage holds neither the tree before ({d1}) nor after ({d2})")
                if d2 is None:
                    dur = done
                st["restarts"] += 1
                start(world["storage"].durable)
                return False
            except StorageError:
                sim.check(world["storage"].durable == before, "partial-change", lambda: f"the storage refused {what} but changed")
                # the object itself may show the change or not
                shown = difference(snapshot(world["root"]), world["mem"]) is not None
                if shown:
                    mem_ok()
                if st["retry"] and (not shown or what.startswith("setting")):
                    # the caller tries again, now with success
                    sim.count("retries")
                    check(what)
                    st["fault"] = None
                    real()
                    if difference(snapshot(world["root"]), world["mem"]) is not None:
                        mem_ok()
                    dur_ok(dur)
                    what += " again"
            else:
                sim.check(not (st.get("err")), "error-swallowed", lambda: f"the storage refused {what} but the caller was not told")
                mem_ok()
                dur_ok(dur)
            check(what)
            return True

        def do(op):
            nonlocal dur
            k, fa, prop, n, rel, fb, item, fc, st["fault"] = op
            st["n"] = 0
            st["retry"] = fc < 0.5
            root, mem, storage = world["root"], world["mem"], world["storage"]
            nodes = list(walk_nodes(root))
            node = nodes[min(int(fa * len(nodes)), len(nodes) - 1)]
            uid = node.uuid
            ref = find(mem, uid)
            full = len(nodes) > 10
            sim.log("op", k, prop, n)

            if k == "set":
                v = value_for(prop, n)
                given = v
                if prop == "e" and plan["own"]:
                    st["fault"] = None  # stored under two keys, by two storage calls
                if prop == "c" and fb < 0.6:
                    # the validation function of the property makes the value
                    given = str(v) if fb < 0.4 else v + 0.5

                def mem_ok():
                    ref[prop] = copy.deepcopy(v)
                attempt(f"setting {prop} to {given!r}", lambda: setattr(node, prop, given), mem_ok, lambda d: find(d, uid).__setitem__(prop, copy.deepcopy(v)))
            elif k in ("insert", "extend", "deep") and not full:
                new = Node()
                nr = new_ref(new.uuid)
                if n % 2:
                    new.a = nr["a"] = n
                if k == "deep":
                    kid = Node()
                    kid.b = n
                    kr = new_ref(kid.uuid)
                    kr["b"] = n
                    if fc < 0.5:
                        new.append_item(rel, kid)
                        nr[rel].append(kr)
                    else:
                        new.set_item(item, kid)
                        nr[item] = kr
                i = int(fb * (len(ref[rel]) + 1))
                if k == "extend":
                    i = len(ref[rel])
                fn = (lambda: node.extend_items(rel, [new])) if k == "extend" else (lambda: node.append_item(rel, new)) if i == len(ref[rel]) else (lambda: node.insert_item(rel, i, new))
                if k == "extend" and st["fault"] is None and n % 2:
                    # several at once: a storage call for each
                    more = [Node(), Node()]
                    refs = [nr] + [new_ref(x.uuid) for x in more]
                    attempt(f"extending {rel} by 3", lambda: node.extend_items(rel, [new] + more), lambda: ref[rel].extend(refs), lambda d: find(d, uid)[rel].extend(copy.deepcopy(refs)))
                    return
                attempt(f"inserting into {rel} at {i}", fn, lambda: ref[rel].insert(i, nr), lambda d: find(d, uid)[rel].insert(i, copy.deepcopy(nr)))
            elif k in ("remove", "move") and ref[rel]:
                i = min(int(fb * len(ref[rel])), len(ref[rel]) - 1)
                victim = getattr(node, rel)[i]
                gone = copy.deepcopy(ref[rel][i])

                def rem(r):
                    del r[rel][i]
                if not attempt(f"removing {rel}[{i}]", lambda: node.remove_item(rel, victim), lambda: rem(ref), lambda d: rem(find(d, uid))):
                    return
                if victim in getattr(node, rel):
                    return
                # change the object while it is out of the tree, then put it elsewhere
                victim.a = n
                gone["a"] = n
                check("changing a removed object")
                if k == "move":
                    nodes = list(walk_nodes(root))
                    node2 = nodes[min(int(fc * len(nodes)), len(nodes) - 1)]
                    ref2 = find(mem, node2.uuid)
                    if fb < 0.5 or ref2[item] is not None:
                        j = int(fc * (len(ref2[rel]) + 1))
                        attempt("re-inserting", lambda: node2.insert_item(rel, j, victim), lambda: ref2[rel].insert(j, gone), lambda d: find(d, node2.uuid)[rel].insert(j, copy.deepcopy(gone)))
                    else:
                        attempt("re-setting", lambda: node2.set_item(item, victim), lambda: ref2.__setitem__(item, gone), lambda d: find(d, node2.uuid).__setitem__(item, copy.deepcopy(gone)))
            elif k == "item" and not full:
                new = Node()
                nr = new_ref(new.uuid)
                if n % 2:
                    new.f = {"list": [n]}
                    nr["f"] = {"list": [n]}
                old = node.get_item(item)
                if attempt(f"setting item {item}", lambda: node.set_item(item, new), lambda: ref.__setitem__(item, nr), lambda d: find(d, uid).__setitem__(item, copy.deepcopy(nr))):
                    if old is not None and node.get_item(item) is new:
                        old.a = n
                        check("changing a replaced object")
            elif k == "clearitem":
                attempt(f"clearing item {item}", lambda: node.set_item(item, None), lambda: ref.__setitem__(item, None), lambda d: find(d, uid).__setitem__(item, None))
            elif k == "copy" and not full:
                twin = copy.deepcopy(node)
                got = snapshot(twin)

                def renew(a, b):
                    b["uuid"] = a["uuid"]
                    for i_ in ITEMS:
                        if a[i_] is not None and b[i_] is not None:
                            renew(a[i_], b[i_])
                    for k_ in RELS:
                        for x, y in zip(a[k_], b[k_]):
                            renew(x, y)
                    return b
                olds = {x["uuid"] for x in walk(ref)}
                want = renew(got, copy.deepcopy(ref))
                d = difference(got, want)
                sim.check(d is None, "bad-copy", lambda: f"a copy differs: {d}")
                sim.check(not olds & {x["uuid"] for x in walk(got)}, "bad-copy", "a copy shares identities with its original")
                check("copying")
                target = world["root"]
                i = len(mem[rel])
                attempt("inserting a copy", lambda: target.append_item(rel, twin), lambda: mem[rel].append(want), lambda d: d[rel].append(copy.deepcopy(want)))
            elif k == "ro":
                try:
                    node.ro = n
                except AttributeError:
                    pass
                else:
                    sim.fail("read-only", "a read-only property was changed")
                check("changing a read-only property")
                calls = len(storage.calls)
                try:
                    node.c = "nonsense"
                except ValueError:
                    pass
                else:
                    sim.fail("not-refused", "a value the validation function refused was accepted")
                check("a refused value")
                sim.check(not hasattr(node, "h") and node._get_persistent_property_value("h") == 9, "hidden", "a hidden property is visible")
                node.h = n
                sim.check(node._get_persistent_property_value("h") == 9, "hidden", "a hidden property was changed from outside")
                del node.h
                check("an attribute named like a hidden property")
                sim.check(len(storage.calls) == calls, "spurious-write", "a refused value or an attribute that is no property reached the storage")
            elif k == "external":
                for v in (n, None if n % 2 else 0):
                    world["context"].write_external_data(node, "data", v)
                    sim.check(world["context"].read_external_data(node, "data") == v and storage.external[(uid, "data")] == v, "external-data", "external data did not reach the storage of the tree")
            elif k == "delay":
                ctx = world["context"]
                sim.check(not ctx.is_write_delayed(node), "write-delay", "an object is write delayed from the start")
                ctx.enter_write_delay(node)
                sim.check(ctx.is_write_delayed(node) and storage.delayed == [node], "write-delay", "entering a write delay did not reach the storage of the tree")
                if n % 2:
                    ctx.rewrite_item(node)
                ctx.exit_write_delay(node)
                sim.check(not ctx.is_write_delayed(node) and not storage.delayed, "write-delay", "leaving a write delay did not reach the storage of the tree")
                m = len(storage.rewritten)
                ctx.rewrite_item(node)
                sim.check(len(storage.rewritten) == m + 1 and storage.rewritten[-1] is node, "write-delay", "rewriting did not reach the storage of the tree")
                sim.check(ctx.get_storage_property(node, "p") == (storage, node, "p"), "storage-property", "asking for a storage property did not reach the storage of the tree")
                storage.rewritten.clear()
            elif k == "next":
                # the other tree: its changes go to its own storage only
                other, text = world["other"], storage.durable
                owner = other
                if n % 2 and len(other.kids) < 3:
                    owner.insert_item("kids", 0, Node())
                if other.kids:
                    owner = other.kids[-1]
                v = value_for(prop, n)
                setattr(owner, prop, v)
                twin = Node()
                twin.begin_reading()
                twin.read_from_dict(json.loads(world["other_storage"].durable))
                twin.finish_reading()
                d = difference(snapshot(twin), snapshot(other))
                sim.check(d is None, "not-stored", lambda: f"the storage of the second tree of the context differs: {d}")
                sim.check(storage.durable == text, "wrong-storage", "a change in one tree reached the storage of another")
            elif k == "bulk" and len(nodes) < 30:
                for j in range(8 + n):
                    new = Node()
                    nr = new_ref(new.uuid)
                    new.a = nr["a"] = j
                    i = (j * 3) % (len(ref[rel]) + 1)
                    if not attempt(f"inserting into {rel} at {i}", lambda: node.insert_item(rel, i, new), lambda: ref[rel].insert(i, nr), lambda d: find(d, uid)[rel].insert(i, copy.deepcopy(nr))):
                        return
            elif k == "alias":
                v = {"list": [n], "n": n}

                def fn():
                    node.f = v
                def mem_ok():
                    ref["f"] = {"list": [n], "n": n}
                if attempt("setting f", fn, mem_ok, lambda d: find(d, uid).__setitem__("f", {"list": [n], "n": n})):
                    v["list"].append("changed later")
                    got = node.f
                    if got is not None:
                        got["list"].append("changed later")
                    p = world["context"].get_properties(node)
                    p["f"] = "changed"
                    p.setdefault(rel, []).append("junk")
                    getattr(node, rel).append("junk")
                    getattr(node, rel).reverse()
                    check("changing values handed in or out")
                    for x in world["root"].write_to_dict().values():
                        if isinstance(x, list):
                            x.append("junk")
                        elif isinstance(x, dict):
                            x["junk"] = x["uuid"] = 1
                    check("changing a dict written from the object")
            elif k == "time":
                sim.step_wall_clock((-3600, 0.5, 86400)[n % 3])
            elif k == "restart":
                st["restarts"] += 1
                sim.log("restart")
                sim.count("fault.restart")
                start(storage.durable)

        start(durable)
        for op in plan["ops"]:
            do(op)
        st["fault"] = None
        check("the end", True)
        st["restarts"] += 1
        start(world["storage"].durable)
        check("the last restart", True)
