"""C22: every change inside a structured model is announced at its root."""
import copy

from dsim.kit import Injected, ScenarioBase, run_all, weighted

BASIC = ("string", "int", "double", "boolean")


def schemas(S):
    z = S.define_record("Z", [S.define_field("v", {"type": S.INT}), S.define_field("w", S.define_string(), default="w")])
    sub = S.define_record("U", [S.define_field("z", S.INT)])
    q = S.define_record("Q", [S.define_field("n", S.INT, default=3), S.define_field("names", S.define_array(S.STRING)), S.define_field("sub", sub)])
    p = S.define_record("P", [S.define_field("x", S.INT, default=0), S.define_field("y", S.FLOAT), S.define_field("tags", S.define_array(S.STRING), default=["t"])])
    return S.define_record("R", [
        S.define_field("s", S.STRING, default="ss"), S.define_field("i", S.INT), S.define_field("f", S.define_float(), default=1.5), S.define_field("b", S.define_boolean(), default=False),
        S.define_field("rec", p, default={"x": 6, "y": 0.5}), S.define_field("nums", S.define_array(S.define_int()), default=[1, 2]), S.define_field("recs", S.define_array(q), default=[{"n": 1}, {"n": 2, "names": ["a"]}]),
        S.define_field("grid", S.define_array(S.define_array(S.INT))), S.define_field("cube", S.define_array(S.define_array(z)))])


def kind_of(schema):
    if isinstance(schema, str):
        return "basic"
    return schema["type"] if schema["type"] in ("record", "array") else "basic"


def value_for(t, n):
    return {"string": ("", "a", "b", "c")[n % 4], "int": (0, 1, 2, -5)[n % 4], "double": (0.0, 1.5, -2.5, 4.0)[n % 4], "boolean": bool(n % 2)}[t]


def plain_for(schema, n, depth=0):
    """Plain data for a schema; now and then without some of the fields."""
    k = kind_of(schema)
    if k == "basic":
        return value_for(schema if isinstance(schema, str) else schema["type"], n)
    if k == "array":
        return [plain_for(schema["items"], n + 3 * j + 1, depth + 1) for j in range((n // 3) % 4 if depth < 3 else 1)]
    return {f["name"]: plain_for(f["type"], n // 2 + j, depth + 1) for j, f in enumerate(schema["fields"]) if (n + 5 * j) % 7}


def fresh(schema, value=None, default=None):
    """The full contents (fields without a value: None) of a new model."""
    k = kind_of(schema)
    if k == "basic":
        return value if value is not None else default
    if k == "array":
        v = value if value is not None else default
        return [fresh(schema["items"], x) for x in (v or [])]
    v = dict(default or {})
    v.update(value or {})
    return {f["name"]: fresh(f["type"], v.get(f["name"]), f.get("default")) for f in schema["fields"]}


def load(schema, contents, value):
    """The contents after loading plain data into a model holding contents."""
    k = kind_of(schema)
    if k == "basic":
        return value
    if k == "array":
        return [load(schema["items"], contents[j], x) if j < len(contents) else fresh(schema["items"], x) for j, x in enumerate(value)]
    return {f["name"]: load(f["type"], contents[f["name"]], value[f["name"]]) if f["name"] in value else contents[f["name"]] for f in schema["fields"]}


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


class Tree:
    """A model with its contents as they should be; the model under test and every part of it is watched."""

    def __init__(self, schema, model, contents):
        self.schema, self.model, self.contents = schema, model, contents


class Scenario(ScenarioBase):
    stall_faults = False
    max_steps = 3000000
    components = {"real": ["nion.utils.StructuredModel", "nion.utils.Model.PropertyModel", "nion.utils.ListModel.ListModel", "nion.utils.Observable", "nion.utils.Event"], "stub": ["observers (scripted: failing, editing)", "threads (simulated)"]}
    rule = "A case is a seeded history of edits, inserts, removes, re-inserts, loads and copies over a nested model, by one or more threads each with fields of its own, with observers that fail or edit; non-trivial: at least three changes were announced."

    def gen(self, rng, tier):
        n = weighted(rng, [(4, 1), (1, 2), (1, 3)])
        table = [(5, "set"), (5, "insert"), (4, "remove"), (2, "reinsert"), (1.5, "load"), (0.7, "copy"), (2, "loose"), (0.5, "copyfrom"), (1, "read")]
        length = rng.choice((4, 8, 15)) if n == 1 else rng.choice((2, 4, 6))
        threads = [dict(ops=[[weighted(rng, table), rng.randrange(1 << 16), rng.randrange(1 << 12), rng.random()] for _ in range(rng.randrange(1, length + 1))]) for _ in range(n)]
        return dict(single=n == 1, threads=threads, bad=rng.choice((0, 0, 2, 5)), edits=rng.choice((0, 0, 0.3)) if n == 1 else 0, seed=rng.randrange(1000), close=rng.random() < 0.3, init=rng.choice((None, 3, 8, 100)))

    def nontrivial(self, plan, o):
        return o.stats.get("announced", 0) > 2

    def run(self, sim, plan):
        S = self.m["StructuredModel"]
        root_schema = schemas(S)
        single = len(plan["threads"]) == 1
        told = {}      # id(model) -> number of model changes announced
        watched = {}   # id(model) -> record of mirrors
        keep = []
        tokens = []
        muddled = [False]
        acting = [0]
        touch = [False]
        calls = [0]

        def parts(schema, model, above=()):
            """Every record and array in a model, outermost first, with the enclosing ones."""
            yield schema, model, above
            if kind_of(schema) == "record":
                for f in schema["fields"]:
                    if kind_of(f["type"]) != "basic":
                        yield from parts(f["type"], getattr(model, f["name"] + "_model"), above + (model,))
            else:
                for x in model.items:
                    if kind_of(schema["items"]) != "basic":
                        yield from parts(schema["items"], x, above + (model,))

        def contents(schema, model):
            k = kind_of(schema)
            if k == "record":
                d = {}
                for f in schema["fields"]:
                    v = getattr(model, f["name"])
                    d[f["name"]] = v if kind_of(f["type"]) == "basic" else contents(f["type"], getattr(model, f["name"] + "_model"))
                return d
            if k == "array":
                return [x if kind_of(schema["items"]) == "basic" else contents(schema["items"], x) for x in model.items]

        def watch(schema, model):
            if id(model) in watched:
                return
            keep.append(model)
            rec = dict(schema=schema, model=model)
            watched[id(model)] = rec
            told[id(model)] = 0
            is_record = kind_of(schema) == "record"

            def changed(*args):
                sim.check(not args, "wrong-announcement", "a model change is announced with arguments")
                told[id(model)] += 1
                sim.count("announced")

            def property_changed(name):
                if is_record:
                    rec["props"][name] = getattr(model, name)
                    tally[id(model), name] = tally.get((id(model), name), 0) + 1

            def inserted(key, value, before_index):
                name = key if is_record else "items"
                sim.check(is_record or key == "items", "wrong-announcement", lambda: f"an array announces an insert of {key!r}")
                sim.check(name in rec["lists"], "wrong-announcement", lambda: f"an insert into {name!r} is announced, which is no array")
                rec["lists"][name].insert(before_index, value)
                edit(schema, model, value, key)

            def removed(key, value, index):
                name = key if is_record else "items"
                sim.check(name in rec["lists"], "wrong-announcement", lambda: f"a remove from {name!r} is announced, which is no array")
                lst = rec["lists"][name]
                if muddled[0]:
                    return
                sim.check(-len(lst) <= index < len(lst) and (lst[index] is value), "wrong-announcement", lambda: f"the remove of another item than the one at {index} is announced")
                del lst[index]
                if touch[0] and isinstance(value, S.RecordModel):
                    # it no longer belongs here: what happens to it is of no concern to its former owners
                    sim.count("fault.observer_edits")
                    fname = next(f["name"] for f in value.schema["fields"] if kind_of(f["type"]) == "basic")
                    was = getattr(value, fname)
                    before_parts.update(id(m) for _, m, _ in parts(value.schema, value))
                    setattr(value, fname, 5000)
                    setattr(value, fname, was)

            def bad(*args):
                calls[0] += 1
                if plan["bad"] and (calls[0] + plan["seed"]) % plan["bad"] == 0:
                    sim.count("fault.observer_exception")
                    raise Injected("observer")
            if is_record:
                def field_changed(name, key):
                    rec["fields"][name] = getattr(model, name + "_model").value
                for f in schema["fields"]:
                    if kind_of(f["type"]) == "basic":
                        tokens.append(getattr(model, f["name"] + "_model").property_changed_event.listen(lambda key, name=f["name"]: field_changed(name, key)))
            mirror(rec)
            if plan["bad"]:
                for e in (model.model_changed_event, model.property_changed_event, model.item_inserted_event, model.item_removed_event):
                    tokens.append(e.listen(bad))
            tokens.append(model.model_changed_event.listen(changed))
            tokens.append(model.property_changed_event.listen(property_changed))
            tokens.append(model.item_inserted_event.listen(inserted))
            tokens.append(model.item_removed_event.listen(removed))

        def mirror(rec):
            schema, model = rec["schema"], rec["model"]
            if kind_of(schema) == "record":
                rec["props"] = {f["name"]: getattr(model, f["name"]) for f in schema["fields"] if kind_of(f["type"]) == "basic"}
                rec["lists"] = {f["name"]: list(getattr(model, f["name"] + "_model").items) for f in schema["fields"] if kind_of(f["type"]) == "array"}
                rec["fields"] = dict(rec["props"])
            else:
                rec["props"] = {}
                rec["fields"] = {}
                rec["lists"] = {"items": list(model.items)}

        def edit(schema, model, value, key):
            """An observer that edits what it was just told about."""
            if not plan["edits"] or acting[0] or muddled[0]:
                return
            calls[0] += 1
            if (calls[0] * 7919 + plan["seed"]) % 10 >= plan["edits"] * 10:
                return
            acting[0] += 1
            muddled[0] = True
            try:
                if isinstance(value, S.RecordModel) and calls[0] % 2:
                    sim.count("fault.observer_edits")
                    name = next(f["name"] for f in value.schema["fields"] if kind_of(f["type"]) == "basic")
                    setattr(value, name, 1000 + calls[0])
                else:
                    array = model if kind_of(schema) == "array" else getattr(model, key + "_model")
                    at = next((j for j, x in enumerate(array.items) if x is value), None)
                    if at is not None:
                        sim.count("fault.observer_edits")
                        array.remove_item(at)
            finally:
                acting[0] -= 1

        def sync(tree):
            for schema, model, _ in list(parts(tree.schema, tree.model)):
                watch(schema, model)

        def verify(tree, what):
            got = contents(tree.schema, tree.model)
            if muddled[0]:
                tree.contents = got
            if got != tree.contents:
                sim.fail("wrong-contents", f"after {what} the model holds {got}, expected {tree.contents}")
            out = tree.model.to_dict_value()
            if out != strip(tree.contents):
                sim.fail("wrong-plain-data", f"after {what} the plain data is {out}, expected {strip(tree.contents)}")
            for schema, model, _ in parts(tree.schema, tree.model):
                rec = watched.get(id(model))
                if rec is None:
                    continue
                props, lists = rec["props"], rec["lists"]
                fields = dict(rec["fields"])
                old = dict(props), {k: list(v) for k, v in lists.items()}
                mirror(rec)
                if not muddled[0]:
                    for name, v in rec["props"].items():
                        sim.check(fields.get(name) == v, "wrong-mirror", lambda: f"after {what} an observer of the field {name} believes it is {fields.get(name)!r}, it is {v!r}")
                        sim.check(old[0].get(name) == v, "wrong-mirror", lambda: f"after {what} an observer of the announcements believes {name} is {old[0].get(name)!r}, it is {v!r}")
                    for name, v in rec["lists"].items():
                        sim.check(len(v) == len(old[1][name]) and all(a is b or a == b for a, b in zip(v, old[1][name])), "wrong-mirror", lambda: f"after {what} an observer of the announcements believes {name} holds {old[1][name]!r}, it holds {v!r}")

        def pick(tree, code, top=None, want=None):
            """A part of the tree, with the parts enclosing it and the place of its contents."""
            def go(schema, model, data, above):
                yield schema, model, data, above
                if kind_of(schema) == "record":
                    for f in schema["fields"]:
                        if kind_of(f["type"]) != "basic" and (top is None or above or f["name"] in top):
                            yield from go(f["type"], getattr(model, f["name"] + "_model"), data[f["name"]], above + (model,))
                elif kind_of(schema["items"]) != "basic":
                    for x, d in zip(model.items, data):
                        yield from go(schema["items"], x, d, above + (model,))
            options = [o for o in go(tree.schema, tree.model, tree.contents, ()) if want is None or kind_of(o[0]) == want]
            if top is not None and want == "record":
                options = [o for o in options if o[3] or any(f["name"] in top and kind_of(f["type"]) == "basic" for f in o[0]["fields"])]
            return options[code % len(options)] if options else None

        loose = []
        tally = {}

        def expect(tree, target, above, before, lo, hi, what):
            """The enclosing parts were told, the others were not."""
            line = {id(m) for m in above} | {id(target)}
            for k, n in told.items():
                delta = n - before.get(k, 0)
                if k in line:
                    if not single and (k == id(tree.model) and k != id(target) or k == id(root.model)):
                        continue
                    h = None if muddled[0] else hi
                    sim.check(delta >= lo and (h is None or delta <= h), "wrong-announcement", lambda: f"{what} was announced {delta} times at {'the changed model' if k == id(target) else 'an enclosing model'}, expected {lo}")
                elif single and not muddled[0] and k not in before_parts:
                    sim.check(delta == 0, "wrong-announcement", lambda: f"{what} was announced at a model that does not contain the change")

        before_parts = set()
        edits = [0]
        loads = [0]

        def do(op, tops):
            k, code, n, where = op
            muddled[0] = False
            before = dict(told)
            before_parts.clear()
            tree = root
            if k == "loose":
                if not loose:
                    return
                tree = loose[code % len(loose)]
                k = ("set", "insert", "remove", "load")[code // 16 % 4]
            top = tops if tree is root else None
            if k == "set":
                o = pick(tree, code, top, "record")
                if o is None:
                    return
                schema, model, data, above = o
                fields = [f for f in schema["fields"] if kind_of(f["type"]) == "basic" and (tree is not root or above or f["name"] in tops)]
                f = fields[n % len(fields)]
                v = plain_for(f["type"], n // 8)
                same = data[f["name"]] == v
                count = tally.get((id(model), f["name"]), 0)
                data[f["name"]] = v
                sim.log("set", f["name"])
                if n % 2:
                    setattr(model, f["name"], v)
                else:
                    getattr(model, f["name"] + "_model").value = v
                if not same:
                    edits[0] += tree is root
                    expect(tree, model, above, before, 1, 1, f"the change of {f['name']}")
                    count = tally.get((id(model), f["name"]), 0) - count
                    sim.check(count == 1 or muddled[0] or id(model) not in watched, "wrong-announcement", lambda: f"one change of {f['name']} was announced {count} times with its name")
            elif k in ("insert", "reinsert"):
                o = pick(tree, code, top, "array")
                if o is None:
                    return
                schema, model, data, above = o
                item_schema = schema["items"]
                at = int(where * (len(data) + 3)) - 1 if n % 3 != 2 else len(data)
                if kind_of(item_schema) == "basic":
                    item = new = value_for(item_schema, n)
                else:
                    if len(data) > 4:
                        return
                    item = None
                    if k == "reinsert":
                        for t in loose:
                            if t.schema is item_schema and t is not tree:
                                item, new = t.model, t.contents
                                loose.remove(t)
                                break
                    if item is None:
                        d = plain_for(item_schema, n)
                        new = fresh(item_schema, d)
                        item = S.build_model(item_schema, value=copy.deepcopy(d))
                sim.log(k, at)
                data.insert(at, new)
                seq = model.field_value
                if n % 3 == 0:
                    seq.insert(at, item)
                elif n % 3 == 1:
                    model.insert_item(at, item)
                else:
                    seq.append(item)
                edits[0] += tree is root
                if muddled[0]:
                    for _, m, _ in parts(item_schema, item) if kind_of(item_schema) != "basic" else ():
                        before_parts.add(id(m))
                expect(tree, model, above, before, 1, 1, "an insert")
            elif k == "remove":
                o = pick(tree, code, top, "array")
                if o is None or not o[2]:
                    return
                schema, model, data, above = o
                at = min(int(where * len(data)), len(data) - 1)
                if plan["bad"] == 0 and n % 7 == 3:
                    # several at once
                    some = (slice(at, None), slice(None, at + 1), slice(None, None, 2), slice(None, None, -2), slice(at, at))[code % 5]
                    gone = list(zip(model.items[some], data[some]))
                    sim.log(k, str(some))
                    del data[some]
                    del model.field_value[some]
                    edits[0] += len(gone) if tree is root else 0
                    expect(tree, model, above, before, len(gone), len(gone), "a remove of several")
                    if kind_of(schema["items"]) != "basic":
                        loose.extend(Tree(schema["items"], x, y) for x, y in gone)
                    return
                if n % 5 == 0:
                    at -= len(data)
                item, gone = model.items[at], data[at]
                sim.log(k, at)
                touch[0] = single and code % 4 == 1
                del data[at]
                if n % 2:
                    del model.field_value[at]
                else:
                    model.remove_item(at)
                touch[0] = False
                edits[0] += tree is root
                expect(tree, model, above, before, 1, 1, "a remove")
                if kind_of(schema["items"]) != "basic":
                    sync_one = Tree(schema["items"], item, gone)
                    loose.append(sync_one)
            elif k in ("load", "copyfrom"):
                o = pick(tree, code, top)
                if tree is root and not single and (o is None or o[1] is root.model):
                    return
                schema, model, data, above = o
                d = plain_for(schema, n)
                if not isinstance(d, (dict, list)):
                    return
                if k == "load" and isinstance(d, dict):
                    # plain data may say that a field has no value (only fields that no default,
                    # their own or one of an enclosing field, would fill in again)
                    d = copy.deepcopy(d)
                    for i, f in enumerate(schema["fields"]):
                        if f["name"] in ("i", "z", "v") and kind_of(f["type"]) == "basic" and f.get("default") is None and (code // 64 + i) % 5 == 0:
                            d[f["name"]] = None
                want = load(schema, data, d)
                same = want == data
                if isinstance(data, dict):
                    data.update(copy.deepcopy(want))
                else:
                    data[:] = copy.deepcopy(want)
                sim.log(k)
                inside = {id(m) for _, m, _ in parts(schema, model)}
                if k == "load":
                    model.from_dict_value(copy.deepcopy(d))
                else:
                    other = S.build_model(schema, value=copy.deepcopy(d))
                    # loading is by plain data: fields of the other without a value are left as they are
                    full = strip(fresh(schema, d))
                    want = load(schema, copy.deepcopy(want), full)
                    if isinstance(data, dict):
                        data.update(copy.deepcopy(want))
                    else:
                        data[:] = copy.deepcopy(want)
                    same = None
                    model.copy_from(other)
                edits[0] += tree is root and same is False
                loads[0] += 1
                before_parts.update(inside)
                before_parts.discard(id(model))
                expect(tree, model, above, before, 1 if same is False else 0, None, "loading plain data")
            elif k == "copy":
                o = pick(tree, code, top)
                schema, model, data, above = o
                c = copy.deepcopy(model)
                t = Tree(schema, c, copy.deepcopy(data))
                loose.append(t)
                sim.log(k)
                expect(tree, root.model, (), before, 0, 0 if single else None, "a copy")
                sync(t)
            elif k == "read":
                o = pick(tree, code, top, "array")
                if o is None:
                    return
                schema, model, data, above = o
                seq = model.field_value
                sim.check(len(seq) == len(data), "wrong-contents", "an array field has another length than its contents")
                for x in model.items:
                    sim.check(x in seq, "wrong-contents", "an item of an array field is not found in it")
                sim.check(object() not in seq, "wrong-contents", "an object not in an array field is found in it")
            if tree is root and not single:
                return
            verify(tree, k)
            sync(tree)
            if tree is not root:
                verify(root, k)
            for t in loose:
                sync(t)
                verify(t, k)

        small = S.RecordModel(S.define_record("S", [S.define_field("a", S.INT, default=0), S.define_field("b", S.BOOLEAN, default=False), S.define_field("c", S.define_array(S.INT), default=[0])]))
        sim.check(small.to_dict_value() == {"a": 0, "b": False, "c": [0]}, "wrong-contents", lambda: f"a new record does not hold its defaults: {small.to_dict_value()}")
        init = plain_for(root_schema, plan["init"]) if plan["init"] is not None else None
        root = Tree(root_schema, S.build_model(root_schema, value=copy.deepcopy(init)), fresh(root_schema, init))
        sync(root)
        verify(root, "building")
        names = [f["name"] for f in root_schema["fields"]]
        n = len(plan["threads"])

        def client(i, ops):
            mine = set(names[(j + plan["seed"]) % len(names)] for j in range(len(names)) if j % n == i)

            def go():
                for op in ops:
                    if n > 1 and op[0] in ("loose", "reinsert", "copy"):
                        continue
                    do(op, mine)
                    sim.point()
            return go
        run_all(sim, [client(i, t["ops"]) for i, t in enumerate(plan["threads"])])
        verify(root, "all changes")
        sim.check(root_schema == schemas(S), "schema-changed", "building or changing a model changed its schema or defaults")
        if plan["edits"] == 0:
            sim.check(told[id(root.model)] == edits[0] or loads[0] and told[id(root.model)] > edits[0], "wrong-announcement", lambda: f"{told[id(root.model)]} model changes were announced at the root, there were {edits[0]}")
        sync(root)
        if plan["close"]:
            o = pick(root, plan["seed"])
            schema, model, data, above = o
            below = [x for x in parts(schema, model) if x[1] is not model and kind_of(x[0]) == "record" and x[2]]
            model.close()
            sim.count("closed")
            before = dict(told)
            for s, m, ab in below:
                f = next(f for f in s["fields"] if kind_of(f["type"]) == "basic")
                m.__setattr__(f["name"], "something new")
            sim.check(told[id(model)] == before[id(model)] and all(told[id(a)] == before[id(a)] for a in above), "told-after-close", "a change below a closed model was announced at it")
