"""C20: registration follows membership; subscribers are told; detached objects write nothing; modification counts."""
import datetime
import gc
import json

from dsim.kit import Injected, ScenarioBase, weighted
from . import persist
from .persist import PROPS, ITEMS, RELS, StorageError, Storage, value_for, walk_nodes


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.Persistence (PersistentObjectContext, PersistentObject)", "nion.utils.Event"], "stub": ["storage handler (simulated, with write errors)", "subscribers (scripted: failing, subscribing further)", "uuid source (simulated)"]}
    rule = "A case is a seeded history of insert, remove, replace, re-insert, attach, detach, subscribe, change and restart operations with subscribers that fail or subscribe further and with storage errors; non-trivial: at least one subscriber was told something."
    shrink_lists = ("ops",)

    def gen(self, rng, tier):
        r = rng.random
        ops = []
        pf = rng.choice((0, 0, 0.05, 0.15))
        pc = rng.choice((0, 0, 0.2, 0.5))
        for _ in range(rng.randrange(3, 25 if tier == "quick" else 60)):
            k = weighted(rng, [(5, "insert"), (4, "remove"), (3, "item"), (1.5, "clearitem"), (3, "reinsert"), (6, "subscribe"), (5, "change"), (1.5, "attach"), (0.4, "restart"), (1, "tree")])
            act = rng.choice(("raise", "same", "other", "raise-after", "self-unreg")) if r() < pc else None
            ops.append([k, r(), r(), rng.choice(RELS), rng.choice(ITEMS), rng.choice(PROPS), rng.randrange(7), act, rng.choice((0, 0, 1, 2)), r() < pf])
        return dict(ops=ops, keys=r() < 0.5, obs=pc, coarse=r() < 0.2, jump=rng.choice((0, 0, 0, -86400, 3600)))

    def nontrivial(self, plan, o):
        return o.stats.get("told", 0) > 0

    def run(self, sim, plan):
        P = self.m["Persistence"]
        st = dict(fault=False, in_unregister=0, ops=0)

        class Told(list):  # what the hooks of the owners were given; each finds its change in effect
            def append(self, h):
                super().append(h)
                k, x, name = h[:3]
                if k == "changed":
                    ok = x._get_persistent_property_value(name) == h[3]
                elif k == "item":
                    ok = x.get_item(name) is h[4]
                elif k == "insert":
                    ok = h[3] < x.item_count(name) and getattr(x, name)[h[3]] is h[4]
                else:
                    ok = not any(i is h[4] for i in getattr(x, name))
                sim.check(ok, "hook-too-early", lambda: f"the {k} hook for {name} was called although the change is not in effect")

        told = Told()
        Node = persist.make_node_class(P, dict(keys=plan["keys"]), told)

        def fault():
            return "error" if st["fault"] else None

        objects = []  # every object ever made, kept alive
        subs = []
        events = []
        w = {}

        def make():
            n = Node()
            objects.append(n)
            return n

        def make_read(deep):
            """an object tree read from a dict; reading ends only after it has been inserted"""
            t = Node()
            t.a = 3
            if deep:
                t.append_item("kids", Node())
                t.set_item("head", Node())
            n = Node()
            n.begin_reading()
            n.read_from_dict(json.loads(json.dumps(t.write_to_dict())))
            objects.extend(walk_nodes(n))
            return n

        def start(root, durable, context=None):
            w.clear()
            w.update(context=context or P.PersistentObjectContext(), root=root, attached=False)
            w["storage"] = Storage(sim, durable, fault)
            w["context"]._set_persistent_storage_for_object(root, w["storage"])

            def changed(registered, unregistered):
                sim.check((registered is None) != (unregistered is None), "registration-event", "a registration event names no or two objects")
                events.append((registered, unregistered))

            def bad(registered, unregistered):
                if len(events) % 3 == 0 and plan["obs"]:
                    sim.count("fault.listener_exception")
                    raise Injected("listener")
            w["tokens"] = [w["context"].registration_event.listen(bad), w["context"].registration_event.listen(changed)]
            subs.clear()
            events.clear()
            attach()

        def attach():
            w["attached"] = True
            w["root"].persistent_object_context = w["context"]

        def members():
            return list(walk_nodes(w["root"])) if w["attached"] else []

        # ---- subscriptions: each knows how often it was told
        def subscribe(uid, kind, act, nested=0):
            """kind 0: both functions, 1: only registered, 2: only unregistered"""
            s = dict(uid=uid, kind=kind, reg=0, unreg=0, over=False, id=len(subs), during=st["in_unregister"])
            subs.append(s)

            def registered(obj):
                s["reg"] += 1
                sim.count("told")
                sim.log("available", s["id"])
                sim.check(obj is not None and obj.uuid == uid, "wrong-object", lambda: f"subscriber {s['id']} was told of another object")
                sim.check(w["context"].get_registered_object(uid) is obj, "told-too-early", lambda: f"subscriber {s['id']} was told but the object cannot be looked up")
                sim.check(st["in_unregister"] or obj.persistent_object_context is w["context"], "told-too-early", lambda: f"subscriber {s['id']} was told of an object without its context")
                further(obj)

            def unregistered(obj):
                s["unreg"] += 1
                sim.count("told")
                sim.log("unavailable", s["id"])
                sim.check(obj is not None and obj.uuid == uid, "wrong-object", lambda: f"subscriber {s['id']} was told of another object")
                st["in_unregister"] += 1
                try:
                    further(obj)
                finally:
                    st["in_unregister"] -= 1

            def further(obj):
                if act in ("same", "other") and nested < 2 and s["reg"] + s["unreg"] == 1:
                    sim.count("nested_subscriptions")
                    target = uid if act == "same" else objects[(s["id"] * 7) % len(objects)].uuid
                    subscribe(target, 0, "raise" if nested else None, nested + 1)
                if act in ("raise", "raise-after"):
                    sim.count("fault.callback_exception")
                    raise Injected("subscriber")

            present = w["context"].get_registered_object(uid) is not None
            try:
                w["context"].subscribe(uid, registered if kind != 2 else None, unregistered if kind != 1 else None)
            except Injected:
                pass
            if present and kind != 2:
                sim.check(s["reg"] == 1 or s["during"], "not-told-at-once", lambda: f"subscriber {s['id']} to a registered object was told {s['reg']} times")

        def check(what, before):
            ms = members()
            ids = {id(x) for x in ms}
            ctx = w["context"]
            for x in objects:
                got = ctx.get_registered_object(x.uuid)
                if id(x) in ids:
                    sim.check(got is x, "not-registered", lambda: f"after {what} an object of the attached tree is not found by its identity")
                    sim.check(x.persistent_object_context is ctx, "no-context", lambda: f"after {what} an object of the attached tree has no context")
                else:
                    sim.check(got is None, "still-registered", lambda: f"after {what} an object outside the attached tree is still registered")
                    sim.check(x.persistent_object_context is None, "still-in-context", lambda: f"after {what} an object outside the attached tree still has a context")
            # announcements: exactly the objects that joined and left, once each
            now = {x.uuid for x in ms}
            joined, left = now - before, before - now
            reg = [a.uuid for a, b in events if a is not None]
            unreg = [b.uuid for a, b in events if b is not None]
            st["reg"], st["unreg"] = reg, unreg
            if what != "restart":
                sim.check(sorted(map(str, reg)) == sorted(map(str, joined)) and sorted(map(str, unreg)) == sorted(map(str, left)), "registration-event",
                          lambda: f"after {what}: {len(joined)} objects joined, {len(reg)} registrations announced; {len(left)} left, {len(unreg)} announced")
            events.clear()
            for s in subs:
                if s["during"]:
                    # subscribed while objects were becoming unavailable: told a balanced number of times; once told
                    # that the object is unavailable, the subscription is over
                    if s["over"]:
                        sim.check((s["reg"], s["unreg"]) == s["want"], "told-wrong", lambda: f"after {what} subscriber {s['id']} was told again after it was told the object is unavailable")
                    elif s["unreg"]:
                        sim.check((s["reg"], s["unreg"]) == (1, 1), "told-wrong", lambda: f"after {what} subscriber {s['id']} was told {s['reg']} times available, {s['unreg']} times unavailable")
                        s["over"] = True
                        s["want"] = (1, 1)
                    else:
                        sim.check(s["reg"] == (1 if s["uid"] in now else 0), "told-wrong", lambda: f"after {what} subscriber {s['id']} was told {s['reg']} times available; the object is {'present' if s['uid'] in now else 'absent'}")
                    continue
                if not s["over"] and "want" not in s:
                    s["want"] = (0, 0)
                    s["was"] = False
                if not s["over"]:
                    r, u = s["want"]
                    here = s["uid"] in now
                    if here and not s["was"]:
                        r += 1
                    if s["was"] and not here or (not s["was"] and not here and s["uid"] in left and s.get("fresh")):
                        u += 1
                        s["over"] = True
                    s["was"] = here
                    s["want"] = (r, u)
                r, u = s["want"]
                if s["kind"] == 2:
                    r = 0
                if s["kind"] == 1:
                    u = 0
                if (s["reg"], s["unreg"]) != (r, u):
                    sim.fail("told-wrong", f"after {what} subscriber {s['id']} (kind {s['kind']}) was told {s['reg']} times available and {s['unreg']} times unavailable, expected {r} and {u}")

        def lineage(node):
            out = []
            while node is not None:
                out.append(node)
                p = node.persistent_object_parent
                node = p.parent if p else None
            return out

        def do(op):
            k, fa, fb, rel, item, prop, n, act, kind, err = op
            ctx, storage, root = w["context"], w["storage"], w["root"]
            before = {x.uuid for x in members()}
            tree = list(walk_nodes(root))
            node = tree[min(int(fa * len(tree)), len(tree) - 1)]
            loose = [x for x in objects if x is not root and x.persistent_object_parent is None]
            if n == 6 and fb < 0.3:
                # the application may set the state to what it likes
                for x in tree:
                    x.modified_state = (0, 1000)[fb < 0.15]
            counts = {id(x): x.modified_count for x in objects}
            states = {id(x): x.modified_state for x in objects}
            stamps = {id(x): x.modified for x in objects}
            if not plan["coarse"] or st["ops"] % 3 == 0:
                sim.now += 0.25 + fb  # a coarse clock shows the same time for several changes
            st["ops"] += 1
            if plan["jump"] and st["ops"] % 4 == 0:
                sim.count("fault.clock_jump")
                sim.wall_offset += plan["jump"]
            now0 = datetime.datetime.utcnow()
            durable = storage.durable
            st["fault"] = err
            calls = len(storage.calls)
            sim.log("op", k)
            changed = new = reading = None
            ok = True
            expect = []
            told.clear()
            contexts = {id(x): x.contexts for x in objects}
            try:
                if k in ("insert", "tree") and len(tree) < 10:
                    reading = new = make_read(k == "tree") if n == 5 else None
                    if new is None:
                        new = make()
                    if k == "tree" and not reading:
                        kid = make()
                        new.append_item(rel, kid)
                        kid2 = make()
                        new.set_item(item, kid2)
                        kid2.append_item("kids", make())
                    changed = node
                    i = int(fb * (node.item_count(rel) + 1))
                    expect = [("insert", node, rel, i, new)] if rel == "kids" else []
                    contexts.update((id(x), x.contexts) for x in walk_nodes(new))
                    node.insert_item(rel, i, new)
                elif k == "remove" and node.item_count(rel):
                    victim = getattr(node, rel)[min(int(fb * node.item_count(rel)), node.item_count(rel) - 1)]
                    changed = node
                    expect = [("remove", node, rel, node.item_index(rel, victim), victim)] if rel == "kids" else []
                    node.remove_item(rel, victim)
                    # nothing the removed object does reaches the storage or its former owners
                    quiet(victim, prop, n)
                elif k in ("item", "clearitem") and (k == "clearitem" or len(tree) < 10):
                    old = node.get_item(item)
                    changed = node
                    new = make() if k == "item" else None
                    if new is not None and n == 5:
                        objects.pop()
                        reading = new = make_read(fb < 0.5)
                    expect = [("item", node, item, old, new)] if item == "head" else []
                    if new is not None:
                        contexts.update((id(x), x.contexts) for x in walk_nodes(new))
                    node.set_item(item, new)
                    if old is not None:
                        quiet(old, prop, n)
                elif k == "reinsert" and loose and len(tree) < 10:
                    new = x = loose[min(int(fb * len(loose)), len(loose) - 1)]
                    changed = node
                    if n % 2 or node.get_item(item) is not None:
                        expect = [("insert", node, rel, node.item_count(rel), x)] if rel == "kids" else []
                        node.append_item(rel, x)
                    else:
                        expect = [("item", node, item, None, x)] if item == "head" else []
                        node.set_item(item, x)
                elif k == "subscribe":
                    pick = objects[min(int(fa * len(objects)), len(objects) - 1)]
                    subscribe(pick.uuid, kind, act)
                elif k == "change":
                    changed = node
                    expect = [("changed", node, "a", value_for(prop, n))] if prop == "a" else []
                    setattr(node, prop, value_for(prop, n))
                    if w["attached"]:
                        sim.check(len(storage.calls) == calls + 1 and storage.calls[-1][1] == node.uuid, "not-written", lambda: f"a change of an attached object made {len(storage.calls) - calls} storage calls")
                    else:
                        sim.check(len(storage.calls) == calls, "detached-write", "a change of a detached object reached the storage")
                elif k == "attach":
                    if w["attached"]:
                        w["attached"] = False
                        root.persistent_object_context = None
                        storage_text = storage.durable
                        if n % 2:
                            ctx._set_persistent_storage_for_object(root, None)
                            sim.check(ctx._get_persistent_storage_for_object(node) is None, "detached-write", "a tree whose storage was taken away still has one")
                            w["taken"] = True
                        node.a = n
                        sim.check(storage.durable == storage_text, "detached-write", "a change of a detached tree reached the storage")
                    else:
                        # the application writes the whole tree again before attaching it
                        storage.doc = json.loads(json.dumps(root.write_to_dict()))
                        storage.durable = json.dumps(storage.doc)
                        if w.pop("taken", False):
                            ctx._set_persistent_storage_for_object(root, storage)
                        attach()
                elif k == "restart" and w["attached"]:
                    sim.count("fault.restart")
                    text = storage.durable
                    again = ctx if n % 2 else None
                    objects.clear()
                    told.clear()
                    expect.clear()
                    # the application forgets the tree without detaching it
                    tree = node = root = storage = ctx = None
                    w.clear()
                    gc.collect()
                    r2 = Node()
                    r2.begin_reading()
                    r2.read_from_dict(json.loads(text))
                    r2.finish_reading()
                    for x in walk_nodes(r2):
                        # the hooks see what is read as they see a change
                        got = sorted((h for h in told if h[1] is x), key=lambda h: h[0])
                        head = x.get_item("head")
                        want = [("changed", "a", x.a)] if x.a is not None else []
                        want += [("item", "head", None, head)] if head is not None else []
                        want += [("insert", "kids", i, y) for i, y in enumerate(x.kids)]
                        want.sort(key=lambda h: h[0])
                        sim.check(len(got) == len(want) and all(a[0] == b[0] and all(p is q or isinstance(p, (int, str, list, dict)) and p == q for p, q in zip(a[2:], b[1:])) for a, b in zip(got, want)), "hooks",
                                  lambda: f"restart: the hooks of an object read were given {[h[0] + ' ' + repr(h[2:]) for h in got]}, expected {want!r}")
                    objects.extend(walk_nodes(r2))
                    start(r2, text, again)
                    if not err:
                        sim.check(len(objects) == len({x.uuid for x in objects}), "identity", "two objects share an identity after a restart")
                    check("restart", set())
                    return
            except StorageError:
                ok = False
                sim.check(storage.durable == durable, "partial-change", f"the storage refused {k} but changed")
                if new is not None and not any(x is new for x in walk_nodes(root)):
                    # an object whose insertion was refused is as detached as before
                    quiet(new, prop, n)
            finally:
                st["fault"] = False
                if reading is not None:
                    reading.finish_reading()
            if changed is not None and ok:
                got = [h for h in told if h[1] is changed]
                sim.check(len(got) == len(expect) and all(a[0] == b[0] and all(x is y or isinstance(x, (int, str, list, dict)) and x == y for x, y in zip(a, b)) for a, b in zip(got, expect)), "hooks",
                          lambda: f"{k}: the owner's hooks were given {[h[0] + ' ' + repr(h[2:]) for h in got]}, expected {[h[0] + ' ' + repr(h[2:]) for h in expect]}")
                line = lineage(changed)
                for x in line:
                    sim.check(x.modified_count > counts[id(x)], "not-counted", lambda: f"{k} did not bump the modification count of {'the object' if x is changed else 'an ancestor'}")
                    sim.check(x.modified_state > states[id(x)], "not-counted", lambda: f"{k} did not bump the modification state of {'the object' if x is changed else 'an ancestor'}")
                    sim.check(x.modified == now0, "modified-time", lambda: f"{k} at {now0} left the modification time of {'the object' if x is changed else 'an ancestor'} at {x.modified}")
            if ok and changed is not None and k != "change":
                for x in objects:
                    if id(x) in counts and (x.modified_count != counts[id(x)] or x.modified_state != states[id(x)] or x.modified != stamps[id(x)]):
                        sim.check(any(x is y for y in lineage(changed)) or id(x) in st.get("quiet", ()), "spurious-count", lambda: f"{k} bumped the modification count of an unrelated object")
            st["quiet"] = set()
            if ok:
                now = {x.uuid for x in members()}
                for x in objects:
                    if id(x) in contexts:
                        want = 1 if (x.uuid in now) != (x.uuid in before) else 0
                        got = x.contexts - contexts[id(x)]
                        sim.check(got == want or not want and x.uuid not in now, "context-hook", lambda: f"{k}: an object was told {got} times that its context changed, expected {want}")
            check(k, before)

        def quiet(victim, prop, n):
            text, calls = w["storage"].durable, len(w["storage"].calls)
            st["quiet"] = {id(x) for x in walk_nodes(victim)}
            owners = {id(x): x.modified_count for x in objects if id(x) not in st["quiet"]}
            st["fault"] = False
            for x in list(walk_nodes(victim)):
                setattr(x, prop, value_for(prop, n))
            sim.check(w["storage"].durable == text and len(w["storage"].calls) == calls, "detached-write", "a change of a removed or replaced object reached the storage")
            sim.check(all(x.modified_count == owners[id(x)] for x in objects if id(x) in owners), "spurious-count", "a change of a removed or replaced object bumped the modification count of a former owner")

        root = make()
        start(root, json.dumps(root.write_to_dict()))
        check("start", set())
        for op in plan["ops"]:
            do(op)
