"""C23: bound targets converge to their source; failures stay local."""
from dsim.kit import Injected, ScenarioBase, weighted


class Thing:
    def __init__(self, x=None, y=None):
        if x is not None:
            self.x = x
        self.y = y

    def __bool__(self):
        return self.y != 1


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.Binding", "nion.utils.Model.PropertyModel", "nion.utils.ListModel", "nion.utils.Observable", "nion.utils.Converter.IntegerToStringConverter", "nion.utils.Event"], "stub": ["targets, converters and validators (scripted: failing, echoing, closing)", "one of the sources (scripted: always notifies, may refuse)"]}
    rule = "A case is a seeded set of bindings of all kinds to shared sources and a seeded history of source changes, target updates, new bindings and closes with converters, validators, targets and sources that fail at seeded calls; non-trivial: at least two deliveries to targets."
    shrink_lists = ("ops", "bindings")

    def gen_kinds(self, rng):
        """Values that are equal without being the same, and values that are changed in place."""
        ops = [[weighted(rng, [(5, "set"), (4, "grow"), (3, "update"), (1, "bind"), (0.5, "close")]), rng.randrange(1 << 10)] for _ in range(rng.randrange(3, 14))]
        return dict(kinds=True, bindings=[[rng.choice(("prop", "prop", "tuple", "attr")), rng.random() < 0.6, rng.choice((None, 9))] for _ in range(rng.randrange(1, 4))], ops=ops)

    def run_kinds(self, sim, plan):
        B = self.m["Binding"]
        Observable = self.m["Observable"]

        class Box:
            def __init__(self, x):
                self.x = x

        class Source(Observable.Observable):
            def __init__(self):
                super().__init__()
                self.held = 0

            @property
            def value(self):
                return self.held

            @value.setter
            def value(self, v):
                self.held = v
                self.notify_property_changed("value")

        class Conv:
            def convert(self, v):
                return repr(v)

            def convert_back(self, v):
                return eval(v)
        kind = plan["bindings"][0][0]  # all bindings of a case are of one kind

        def wrapped(v):
            return v if kind == "prop" else (v,) if kind == "tuple" else Box(v)

        def inner():
            return source.held if kind == "prop" else source.held[0] if kind == "tuple" else source.held.x
        source = Source()
        source.held = wrapped(0)
        bs = []

        def make(spec):
            conv = Conv() if spec[1] else None
            if kind == "prop":
                binding = B.PropertyBinding(source, "value", converter=conv, fallback=spec[2])
            elif kind == "tuple":
                binding = B.TuplePropertyBinding(source, "value", 0, converter=conv, fallback=spec[2])
            else:
                binding = B.PropertyAttributeBinding(source, "value", "x", converter=conv, fallback=spec[2])
            b = dict(binding=binding, conv=spec[1], fallback=spec[2], got=[])
            binding.target_setter = b["got"].append
            bs.append(b)

        def exact(p, q):
            return type(p) is type(q) and p == q

        def check(what):
            v = inner()
            for i, b in enumerate(bs):
                w = b["fallback"] if v is None else repr(v) if b["conv"] else v
                got = b["binding"].get_target_value()
                sim.check(exact(got, w), "wrong-value", lambda: f"binding {i} tells a new target {got!r}, expected {w!r}")
                if what in ("set", "grow", "update"):
                    sim.count("delivered", len(b["got"]))
                    sim.check(b["got"] and exact(b["got"][-1], w) and (b["conv"] or v is None or b["got"][-1] is v), "wrong-value", lambda: f"after {what} of {v!r} the target of binding {i} ({kind}) was given {b['got']!r}, expected {w!r}")
                b["got"].clear()
        for spec in plan["bindings"]:
            make(spec)
        values = (0, False, 0.0, 1, True, 1.0, "", "a", [], [1], (), None)
        for k, n in plan["ops"]:
            v = values[n % len(values)]
            v = list(v) if isinstance(v, list) else v
            if k == "set":
                sim.log("set", repr(v))
                source.value = wrapped(v)
            elif k == "grow":
                # changed in place, then announced
                v = inner()
                if not isinstance(v, list):
                    continue
                sim.log("grow")
                v.append(n)
                source.notify_property_changed("value")
            elif k == "update" and bs:
                b = bs[n % len(bs)]
                if v is None:
                    continue
                sim.log("update", repr(v))
                b["binding"].update_source(repr(v) if b["conv"] else v)
                sim.check(exact(inner(), v), "wrong-source", lambda: f"a target set {v!r}, the source holds {inner()!r}")
            elif k == "bind" and len(bs) < 6:
                make(plan["bindings"][n % len(plan["bindings"])])
            elif k == "close" and bs:
                bs.pop(n % len(bs))["binding"].close()
            else:
                continue
            check(k)

    def gen(self, rng, tier):
        if rng.random() < 0.1:
            return self.gen_kinds(rng)
        def binding():
            kind = weighted(rng, [(4, "prop"), (2, "tuple"), (2, "attr"), (1, "attrfn"), (2, "list")])
            return dict(kind=kind, source=rng.choice(("s", "s", "m")), key=rng.choice(("a", "a", "b")), index=rng.randrange(3), attr=rng.choice("xy"), conv=rng.choice((None, None, "plus", "str", "int", "blank")), valid=rng.random() < 0.3,
                        fallback=rng.choice((None, "none", 77, 0, 1, 2)), act=rng.choice((None, None, None, None, "echo", "close-self", "close-other")), pf=rng.choice((0, 0, 3, 7)), late=rng.random() < 0.2)
        ops = []
        for _ in range(rng.randrange(2, 16 if tier == "quick" else 40)):
            k = weighted(rng, [(6, "set"), (4, "tuple"), (3, "obj"), (4, "insert"), (2, "remove"), (8, "update"), (1, "close"), (1, "bind"), (0.5, "noise"), (0.5, "refuse"), (1, "fallback")])
            ops.append([k, rng.randrange(1 << 12), rng.choice((None, 0, 1, 2, 3, 50, 200)), rng.choice(("s", "s", "m")), rng.choice(("a", "a", "b"))])
        return dict(bindings=[binding() for _ in range(rng.randrange(1, 6))], ops=ops)

    def nontrivial(self, plan, o):
        return o.stats.get("delivered", 0) >= 2

    def run(self, sim, plan):
        if plan.get("kinds"):
            return self.run_kinds(sim, plan)
        B = self.m["Binding"]
        Model = self.m["Model"]
        LM = self.m["ListModel"]
        Observable = self.m["Observable"]

        class Source(Observable.Observable):
            """Notifies on every set, as the sources of an application may."""

            def __init__(self):
                super().__init__()
                self.v = dict(a=None, b=5, tup=None, obj=None)
                self.refuse = False

            def put(self, key, value):
                if self.refuse:
                    sim.count("fault.source_refuses")
                    raise Injected("source")
                self.v[key] = value
                self.notify_property_changed(key)
            a = property(lambda self: self.v["a"], lambda self, x: self.put("a", x))
            b = property(lambda self: self.v["b"], lambda self, x: self.put("b", x))
            tup = property(lambda self: self.v["tup"], lambda self, x: self.put("tup", x))
            obj = property(lambda self: self.v["obj"], lambda self, x: self.put("obj", x))

        source = Source()
        models = {k: Model.PropertyModel(v) for k, v in dict(a=1, b=None, tup=(1, 2), obj=None).items()}
        lists = LM.ListModel("things", items=["i0"])
        expected = dict(s=dict(source.v), m={k: m.value for k, m in models.items()})
        items = ["i0"]
        bs = []
        depth = [0]
        echoed = [False]

        class Conv:
            def __init__(self, b):
                self.b = b

            def convert(self, v):
                trip(self.b, "convert")
                if self.b["conv"] == "blank":
                    return None if v == 3 else v
                return v + 1000 if self.b["conv"] == "plus" else f"<{v}>"

            def convert_back(self, v):
                trip(self.b, "convert_back")
                if self.b["conv"] == "blank":
                    return 3 if v is None else v
                return v - 1000 if self.b["conv"] == "plus" else int(v[1:-1])

        class Valid:
            def __init__(self, b):
                self.b = b

            def validate(self, v):
                trip(self.b, "validate")
                return min(v, 100)

        def trip(b, what):
            """A scripted failure."""
            b["calls"] += 1
            if b["pf"] and (b["calls"] + b["id"]) % b["pf"] == 0:
                sim.count(f"fault.{what}_exception")
                b["failed"] = True
                b["tripped"] += 1
                raise Injected(what)

        def there(b, v):
            if b["conv"] is None or v is None:
                return v
            if b["conv"] == "blank":
                return None if v == 3 else v
            return v + 1000 if b["conv"] == "plus" else f"<{v}>" if b["conv"] == "str" else str(v)

        def current(b):
            """What the source has for this binding."""
            v = expected[b["source"]][b["prop"]]
            if b["kind"] == "prop":
                return v
            if v is None:
                return None
            if b["kind"] == "tuple":
                return v[b["index"]] if b["index"] < len(v) else None
            return getattr(v, b["attr"], None)

        def want(b):
            v = current(b)
            return b["fallback"] if v is None else there(b, v)

        def make(spec):
            b = dict(spec, id=len(bs), calls=0, failed=False, tripped=0, open=True, deliveries=0, lost=False)
            kind = b["kind"]
            b["prop"] = b["key"] if kind == "prop" else "tup" if kind == "tuple" else "obj"
            conv = None if b["conv"] is None else self.m["Converter"].IntegerToStringConverter() if b["conv"] == "int" else Conv(b)
            b["valid"] = b["valid"] and kind == "prop"
            if kind == "attr":
                b["source"] = "s"  # changed in place: needs a source that notifies on every set
            src = source if b["source"] == "s" else models[b["prop"]]
            name = b["prop"] if b["source"] == "s" else "value"
            if kind == "list":
                binding = B.ListBinding(lists, "things")
                b["shown"] = list(binding.items)

                def inserter(item, index):
                    sim.check(b["open"], "told-after-close", "a closed list binding delivered an insert")
                    trip_list(b)
                    sim.count("delivered")
                    b["shown"].insert(index, item)

                def remover(index):
                    sim.check(b["open"], "told-after-close", "a closed list binding delivered a remove")
                    trip_list(b)
                    sim.count("delivered")
                    if not b["lost"]:
                        sim.check(0 <= index < len(b["shown"]), "wrong-index", "a list binding removes an item that is not there")
                        del b["shown"][index]
                # a client may care about only one of the two
                b["half"] = "insert" if b["fallback"] == 77 else "remove" if b["fallback"] == 0 else None
                if b["half"] != "remove":
                    binding.inserter = inserter
                if b["half"] != "insert":
                    binding.remover = remover
                b["lost"] = b["half"] is not None
            else:
                if kind == "prop":
                    binding = B.PropertyBinding(src, name, converter=conv, validator=Valid(b) if b["valid"] else None, fallback=b["fallback"])
                elif kind == "tuple":
                    binding = B.TuplePropertyBinding(src, name, b["index"], converter=conv, fallback=b["fallback"])
                elif kind == "attr":
                    binding = B.PropertyAttributeBinding(src, name, b["attr"], converter=conv, fallback=b["fallback"])
                else:
                    def update(value, attr, x):
                        t = Thing(getattr(value, "x", None), getattr(value, "y", None))
                        setattr(t, attr, x)
                        return t
                    binding = B.PropertyAttributeBinding(src, name, b["attr"], converter=conv, fallback=b["fallback"], update_attribute_fn=update)

                def setter(v):
                    sim.check(b["open"], "told-after-close", "a closed binding delivered to its target")
                    trip(b, "target")
                    b["failed"] = False
                    b["shown"] = v
                    b["deliveries"] += 1
                    sim.count("delivered")
                    sim.log("shown", b["id"], repr(v))
                    act(b)
                b["shown"] = initial(b, binding)
                binding.target_setter = setter
            b["binding"] = binding
            bs.append(b)

        def trip_list(b):
            b["calls"] += 1
            if b["pf"] and (b["calls"] + b["id"]) % b["pf"] == 0:
                sim.count("fault.target_exception")
                b["lost"] = True  # this target missed a change for good
                raise Injected("target")

        def half(what, fn):
            calls = [(b, b["calls"]) for b in bs if b["kind"] == "list" and b["half"] and b["open"]]
            fn()
            for b, n in calls:
                if b["open"]:
                    sim.check(b["calls"] == n + (b["half"] == what), "wrong-list", lambda: f"a list binding with only a function to {b['half']} called it {b['calls'] - n} times for one {what}")

        def initial(b, binding):
            for _ in range(3):
                try:
                    v = binding.get_target_value()
                except Injected:
                    continue
                sim.check(v == want(b) and (v is None) == (want(b) is None), "wrong-value", lambda: f"binding {b['id']} ({b['kind']}) gets {v!r}, expected {want(b)!r}")
                return v
            return want(b)

        def act(b):
            if depth[0] > 2 or b["act"] is None:
                return
            if b["act"] == "echo" and current(b) is not None and current(b) > 40:
                # the target only takes small values and says so
                depth[0] += 1
                echoed[0] = True
                try:
                    sim.count("fault.target_echoes")
                    update(b, 30 + b["id"], nested=True)
                finally:
                    depth[0] -= 1
            elif b["act"] == "close-self" and b["deliveries"] == 2:
                sim.count("fault.closed_while_delivering")
                close(b)
            elif b["act"] == "close-other" and b["deliveries"] == 1:
                other = bs[(b["id"] + 1) % len(bs)]
                sim.count("fault.closed_while_delivering")
                close(other)

        def close(b):
            if b["open"]:
                sim.log("close", b["id"])
                b["binding"].close()
                b["open"] = False

        def changed_value(b, x):
            """The source's value after the bound part becomes x."""
            old = expected[b["source"]][b["prop"]]
            if b["kind"] == "prop":
                return x
            if b["kind"] == "tuple":
                lst = list(old) if old is not None else []
                while len(lst) <= b["index"]:
                    lst.append(None)
                lst[b["index"]] = x
                return tuple(lst)
            t = Thing(getattr(old, "x", None), getattr(old, "y", None))
            setattr(t, b["attr"], x)
            return t

        def update(b, x, nested=False):
            """The target of b changes to show x."""
            if b["kind"] == "list" or x is None:
                return
            if b["kind"] == "attr" and expected["s"]["obj"] is None:
                return
            if b["conv"] == "int" and not isinstance(x, int):
                return
            tv = there(b, x)
            if not b["open"]:
                b["binding"].update_source(tv)
                return
            final = min(x, 100) if b["valid"] else x
            before = dict(expected[b["source"]])
            tripped = b["tripped"]
            new = changed_value(b, final)
            if not nested:
                for o in bs:
                    o["failed"] = False
            # converting back or validating may fail before anything changes, which shows in the counter
            expected[b["source"]][b["prop"]] = new
            st = dict(trip=None)
            sim.log("update", b["id"], repr(tv))
            real = live(b["source"], b["prop"])
            try:
                b["binding"].update_source(tv)
            except Injected as e:
                st["trip"] = e.args[0]
            if st["trip"] in ("convert_back", "validate", "source"):
                expected[b["source"]][b["prop"]] = before[b["prop"]]
                b["failed"] = True
                sim.check(same(live(b["source"], b["prop"]), real), "partial-change", "an update refused by the converter, the validator or the source changed the source")
            else:
                sim.check(st["trip"] is None, "escaped-exception", lambda: f"a failure of a {st['trip']} reached the caller of update_source")
                if not nested and not echoed[0]:
                    sim.check(same(live(b["source"], b["prop"]), new), "wrong-source", lambda: f"after the update of binding {b['id']} ({b['kind']}) the source holds {show(live(b['source'], b['prop']))}, expected {show(new)}")
            return st["trip"]

        def live(s, prop):
            return source.v[prop] if s == "s" else models[prop].value

        def show(v):
            return repr(v) if not isinstance(v, Thing) else f"Thing({vars(v)})"

        def same(p, q):
            if isinstance(p, Thing) and isinstance(q, Thing):
                return getattr(p, "x", None) == getattr(q, "x", None) and p.y == q.y
            return p == q and type(p) is type(q)

        def check(what):
            for s in "sm":
                for prop, v in expected[s].items():
                    sim.check(same(live(s, prop), v), "wrong-source", lambda: f"after {what} the source's {prop} is {show(live(s, prop))}, expected {show(v)}")
            for b in bs:
                if not b["open"]:
                    continue
                if b["kind"] == "list":
                    sim.check(b["lost"] or b["shown"] == items, "wrong-list", lambda: f"after {what} a bound list shows {b['shown']}, expected {items}")
                    continue
                w = want(b)
                if not b["failed"] and not b.get("stale"):
                    sim.check(b["shown"] == w and (b["shown"] is None) == (w is None), "wrong-value", lambda: f"after {what} the target of binding {b['id']} ({b['kind']}) shows {b['shown']!r}, expected {w!r}")
                b["stale"] = b["shown"] != w
                initial(b, b["binding"])

        def put(s, prop, v):
            expected[s][prop] = v
            for b in bs:
                if b["kind"] != "list" and b["source"] == s and b["prop"] == prop:
                    b["failed"] = False
                    b["stale"] = False
            sim.log("put", s, prop)
            if s == "s":
                setattr(source, prop, v)
            else:
                models[prop].value = v

        for spec in plan["bindings"]:
            if not spec["late"]:
                make(spec)
        for n, (k, code, x, s, key) in enumerate(plan["ops"]):
            echoed[0] = False
            for b in bs:
                b["failed"] = False
            if k == "set":
                if s == "m" and same(expected["m"][key], x):
                    continue
                put(s, key, x)
            elif k == "tuple":
                v = None if x is None and code % 2 else tuple(None if (code >> j) % 5 == 0 else (code >> j) % 7 for j in range(code % 4))
                if s == "m" and expected["m"]["tup"] == v:
                    continue
                put(s, "tup", v)
            elif k == "obj":
                put(s, "obj", None if code % 7 == 0 else Thing(None if code % 5 == 0 else code % 11, x))
            elif k == "insert":
                at = code % (len(items) + 1)
                items.insert(at, f"i{n}")
                half("insert", lambda: lists.insert_item(at, f"i{n}"))
            elif k == "remove" and items:
                at = code % len(items)
                del items[at]
                half("remove", lambda: lists.remove_item(at))
            elif k == "update" and bs:
                b = bs[code % len(bs)]
                prop, src = b.get("prop"), b["source"]
                fresh = b["kind"] != "list" and b["open"] and x is not None
                if fresh and src == "m":
                    final = min(x, 100) if b["valid"] else x
                    fresh = not same(changed_value(b, final), expected["m"][prop])
                stale = {o["id"]: o.get("stale") for o in bs}
                if fresh:
                    for o in bs:
                        if o["kind"] != "list" and o["source"] == src and o["prop"] == prop:
                            o["stale"] = False
                t = update(b, x)
                if t is not None or (b["kind"] == "attr" and expected["s"]["obj"] is None):
                    for o in bs:
                        o["stale"] = stale[o["id"]]
            elif k == "close" and bs:
                b = bs[code % len(bs)]
                shown = b["shown"] if b["kind"] != "list" else list(b["shown"])
                close(b)
            elif k == "bind" and plan["bindings"]:
                make(plan["bindings"][code % len(plan["bindings"])])
            elif k == "fallback" and bs:
                b = bs[code % len(bs)]
                if b["kind"] != "list" and b["open"] and current(b) is not None:
                    # takes effect when the source has no value
                    b["fallback"] = b["binding"].fallback = ("later", 88, None)[code // 16 % 3]
            elif k == "noise":
                source.notify_property_changed("other")
                # other keys: some begin like the bound one
                key = ("others", "things2", "thing", "", "Things")[code % 5]
                lists.notify_insert_item(key, "x", 0)
                lists.notify_remove_item(key, "x", 0)
                source.notify_property_changed(key)
            elif k == "refuse" and bs:
                b = bs[code % len(bs)]
                if b["kind"] != "list" and b["source"] == "s":
                    source.refuse = True
                    stale = {o["id"]: o.get("stale") for o in bs}
                    try:
                        t = update(b, x)
                    finally:
                        source.refuse = False
                    if b["open"] and x is not None and not (b["kind"] == "attr" and (t is None or expected["s"]["obj"] is None)):
                        sim.check(t is not None, "swallowed-exception", "the source refused an update but its target was not told")
                    if b["kind"] == "attr" and t == "source":
                        # the attribute was changed in place before the source refused
                        break
            check(k)
