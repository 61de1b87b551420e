"""C13: derived streams track their inputs, survive failing functions and listeners, and release their inputs."""
from dsim.kit import Injected, ScenarioBase, weighted

NB = 3  # plain input streams


class Scenario(ScenarioBase):
    scheduled = False
    components = {"real": ["nion.utils.Stream (Value, Map, CombineLatest, Concat, PropertyChangedEvent, Constant)", "nion.utils.Model.StreamValueModel", "nion.utils.ReferenceCounting", "nion.utils.Event"], "stub": ["value functions, property getters and listeners (scripted failures)"]}
    rule = "A case is a seeded history of building a graph of derived streams, changing inputs, re-targeting, failing functions and listeners and releasing in any order; non-trivial: at least one derived stream saw a change."

    def gen(self, rng, tier):
        ops = []
        nodes = 0
        pf = rng.choice((0, 0, 0.2, 0.4))

        def fails():
            return [k for k in range(1, 8) if rng.random() < pf]

        def create():
            kind = weighted(rng, [(3, "map"), (3, "combine"), (2, "concat"), (2, "prop"), (1, "propc"), (2, "model")])
            pick = lambda: rng.randrange(NB + nodes)
            ins = [pick()]
            if kind == "combine":
                ins = [pick() for _ in range(rng.choice((0, 1, 2, 2, 3)))]
            if kind == "prop":
                ins = []
            return ["create", dict(kind=kind, ins=ins, fail=fails(), lfail=[k for k in range(6) if rng.random() < pf * 0.7], fn=rng.random() < 0.6, fresh=rng.random() < 0.5, never=rng.random() < 0.15, quiet=rng.random() < 0.2, obj=rng.randrange(2), k=rng.randrange(1, 4))]
        for _ in range(rng.randrange(1, 5)):
            ops.append(create())
            nodes += 1
        for _ in range(rng.randrange(2, 16 if tier == "quick" else 40)):
            k = weighted(rng, [(6, "set"), (3, "prop"), (2, "target"), (1, "create"), (2, "release"), (1.5, "watch")])
            if k == "create" and nodes < 8:
                ops.append(create())
                nodes += 1
            elif k == "watch":
                ops.append(["watch", rng.randrange(nodes), rng.random() < 0.7])
            elif k == "release":
                ops.append(["release", rng.randrange(nodes)])
            elif k == "set":
                ops.append(["set", rng.randrange(NB), rng.choice((None, 0, 1, 2, 3, 4, 5))])
            elif k == "prop":
                ops.append(["prop", rng.randrange(2), rng.choice((None, None, 0, 1, 2, 3, 4, 5)), rng.random() < pf * 0.5])
            elif k == "target":
                ops.append(["target", rng.choice((0, 0, 1, 1, None))])
        # a listener that releases a stream while values propagate
        acts = [[rng.randrange(nodes), rng.randrange(4), rng.randrange(nodes)] for _ in range(rng.choice((0, 0, 0, 1, 2)))]
        return dict(ops=ops, acts=acts, drop=rng.random(), late=rng.random() < 0.5)

    shrink_lists = ("ops", "acts")

    def nontrivial(self, plan, o):
        return o.stats.get("announcements", 0) > 0

    def run(self, sim, plan):
        Stream, Model, Observable = self.m["Stream"], self.m["Model"], self.m["Observable"]

        class Obj(Observable.Observable):
            def __init__(self, n):
                super().__init__()
                self.n = n
                self._value = n * 100
                self.fail = False

            @property
            def value(self):
                if self.fail:
                    sim.count("fault.getter_exception")
                    raise Injected("getter")
                return self._value

        objs = [Obj(0), Obj(1)]
        base = [Stream.ValueStream(b).add_ref() for b in range(NB)]
        targets = Stream.ValueStream(objs[0]).add_ref()
        nodes = []

        # comparisons supplied by the user: 4 and 5 are the same to them
        def alike(a, b):
            return a == b or (a in (4, 5) and b in (4, 5))

        def careful(a, b):
            sim.check(a is not None and b is not None, "bad-comparison", "the comparison was given None")
            return alike(a, b)

        def never(a, b):
            return False  # for a value that may have changed within

        def same(n, a, b):
            if n.get("never"):
                return a is None and b is None and n["kind"] == "model"
            return a == b or (n["kind"] in ("propc", "model") and n["spec"]["fn"] and alike(a, b))

        def stream_of(i):
            if i < NB:
                return base[i]
            n = nodes[i - NB] if i - NB < len(nodes) else None
            if n is None or n["closed"] or n["kind"] == "model":
                return base[i % NB]
            return n["s"]

        def node_fn(n, what):
            """value functions: record the call and its outcome, fail on script"""
            def fn(*args):
                k = n["calls"]
                n["calls"] += 1
                n["args"] = args
                if k in n["spec"]["fail"]:
                    sim.count("fault.function_exception")
                    n["ok"] = False
                    n["last"] = n["s"].value
                    raise Injected("function")
                r = what(*args)
                n["ok"] = True
                n["result"] = r
                return r
            return fn

        def create(spec):
            n = dict(spec=spec, kind=spec["kind"], calls=0, args=None, ok=True, result=None, s=None, closed=False, held=True, seen=[], ins=[], out=None, last=None, id=len(nodes))
            kind = spec["kind"]
            k = spec["k"]
            ins = [stream_of(i) for i in spec["ins"]]
            n["ins"] = ins
            if kind == "map":
                n["s"] = Stream.MapStream(ins[0], node_fn(n, lambda v: None if v is None else ("m", k, v) if k != 3 else 0 if v == 0 else ("m", v)))
            elif kind == "combine":
                if spec["fn"]:
                    n["s"] = Stream.CombineLatestStream(ins, node_fn(n, lambda *a: ("c",) + a))
                else:
                    n["s"] = Stream.CombineLatestStream(ins)
            elif kind == "concat":
                def choose(item):
                    j = item % NB if isinstance(item, int) else 1
                    target = base[j] if base[j] is not ins[0] else base[(j + 1) % NB]
                    n["outbase"] = target
                    if spec["fresh"]:
                        n["out"] = Stream.MapStream(target, lambda v: ("f", v))
                    else:
                        n["out"] = target
                    return n["out"]
                n["s"] = Stream.ConcatStream(ins[0], node_fn(n, choose))
            elif kind == "prop":
                n["s"] = Stream.PropertyChangedEventStream(targets, "value")
                n["ins"] = [targets]
            elif kind == "propc":
                n["never"] = spec["never"]
                n["s"] = Stream.PropertyChangedEventStream(objs[spec["obj"]], "value", never if spec["never"] else alike if spec["fn"] else None)
                n["ins"] = []
            elif kind == "model":
                n["never"] = spec["never"]
                n["s"] = Model.StreamValueModel(ins[0], value=7 if k == 2 else None, cmp=never if spec["never"] else careful if spec["fn"] else None)
                n["fed"], n["prev"] = 0, n["s"].value

                def fed(value):
                    n["fed"] += not (value is None and n["prev"] is None)
                    n["prev"] = value
                n["fedtoken"] = ins[0].value_stream.listen(fed)
                if spec["fresh"]:
                    n["told"] = []
                    n["s"].on_value_changed = n["told"].append
            nodes.append(n)
            sim.log("create", n["id"], kind)

            def bad(*a):
                if len(n["seen"]) in spec["lfail"]:
                    sim.count("fault.listener_exception")
                    raise Injected("listener")

            def act(*a):
                for who, at, whom in plan["acts"]:
                    if who == n["id"] and at == len(n["seen"]) and whom < len(nodes) and not busy[0]:
                        acted[0] = True
                        release(nodes[whom])

            if kind == "model":
                ev = n["s"].property_changed_event

                def seen(key):
                    note(n, n["s"].value)
            else:
                ev = n["s"].value_stream

                def seen(value):
                    v = n["s"].value
                    # unless a listener has just released something
                    sim.check(acted[0] or v == value, "wrong-value", lambda: f"{kind} {n['id']} announced {value!r} while its value was {v!r}")
                    note(n, value)
                n["s"].add_ref()
            n["watch"] = lambda: [ev.listen(bad), ev.listen(seen), ev.listen(act)]
            n["tokens"] = [] if spec["quiet"] else n["watch"]()  # nobody may be listening for a while
            n["last"] = n["s"].value

        def note(n, value):
            sim.count("announcements")
            sim.log("announce", n["id"], repr(value))
            sim.check(not n["closed"], "announced-after-close", f"{n['kind']} {n['id']} announced {value!r} after it was released")
            n["seen"].append(value)

        busy = [False]
        acted = [False]
        releasing = set()

        def release(n):
            if not n["held"]:
                return
            n["held"] = False
            sim.log("release", n["id"])
            if n["kind"] == "model":
                n["s"].close()
            else:
                n["s"].remove_ref()

        def settle_closed():
            # a released stream is closed when nothing consumes it any more
            changed = True
            while changed:
                changed = False
                for n in nodes:
                    if not n["closed"] and not n["held"] and not any(n["s"] is i for m in nodes if not m["closed"] for i in m["ins"]):
                        n["closed"] = changed = True

        def expected_refs(s):
            count = sum(1 for m in nodes if not m["closed"] for i in m["ins"] if i is s)
            for m in nodes:
                if m["closed"]:
                    continue
                if m["kind"] == "concat" and m["ins"][0].value and m["ok"] and m["out"] is not None and m.get("outbase") is s:
                    count += 1
            return count

        def check(before):
            for n in nodes:
                desc = lambda: f"{n['kind']} {n['id']} (inputs {[i.value for i in n['ins']]}, last call {n['args']} {'ok' if n['ok'] else 'failed'})"
                if n["closed"]:
                    continue
                v = n["s"].value
                cur = tuple(i.value for i in n["ins"])
                kind = n["kind"]
                if kind in ("map", "combine") and (kind == "map" or n["spec"]["fn"]):
                    sim.check(n["args"] == cur, "missed-update", lambda: desc() + f" value {v!r}: the function was not given the current input")
                    sim.check(v == n["result"], "wrong-value", lambda: desc() + f": value {v!r}, expected {n['result']!r}")
                elif kind == "combine":
                    sim.check(v == cur, "wrong-value", lambda: desc() + f": value {v!r}")
                elif kind == "concat":
                    if not cur[0]:
                        sim.check(v is None, "wrong-value", lambda: desc() + f": value {v!r} without an item")
                    else:
                        sim.check(n["args"] == cur, "missed-update", lambda: desc() + ": the function was not given the current item")
                        if n["ok"]:
                            sim.check(v == n["out"].value, "wrong-value", lambda: desc() + f": value {v!r}, inner stream {n['out'].value!r}")
                        else:
                            sim.check(v == n["last"], "wrong-value", lambda: desc() + f": value {v!r}, previous {n['last']!r}")
                elif kind in ("prop", "propc"):
                    o = targets.value if kind == "prop" else objs[n["spec"]["obj"]]
                    if o is not None:
                        if not o.fail and not o.missed.get(n["id"]):
                            sim.check(v == o._value or same(n, v, o._value), "wrong-value", lambda: f"{kind} {n['id']}: value {v!r}, property {o._value!r}")
                elif kind == "model":
                    sim.check(v == n["ins"][0].value or same(n, v, n["ins"][0].value), "wrong-value", lambda: desc() + f": model value {v!r}, stream {n['ins'][0].value!r}")
                if n["tokens"] and n["id"] in before and before[n["id"]][0] != v:
                    k = before[n["id"]][1]
                    sim.check(len(n["seen"]) > k and n["seen"][-1] == v, "unannounced", lambda: desc() + f": value became {v!r}, announced {n['seen'][k:]!r}")
                if n["tokens"] and n["id"] in before and kind in ("map", "prop", "propc", "model"):
                    # these announce changes only
                    chain = [before[n["id"]][0]] + n["seen"][before[n["id"]][1]:]
                    for a, b in zip(chain, chain[1:]):
                        sim.check(not same(n, a, b), "unchanged", lambda: desc() + f": announced {chain[1:]!r}, value before {chain[0]!r}")
                    if n.get("never"):
                        k = n["fed"] if kind == "model" else fires[n["spec"]["obj"]]
                        sim.check(len(chain) - 1 == k, "unannounced", lambda: desc() + f": given {k} values that compare unequal, announced {chain[1:]!r}")
                    if "told" in n:
                        sim.check(n["told"][-1:] == chain[1:][-1:] and len(n["told"]) == len(chain) - 1, "unannounced", lambda: desc() + f": announced {chain[1:]!r}, on_value_changed was given {n['told']!r}")
                if "told" in n:
                    n["told"].clear()
                n["last"] = v
                n["fed"] = 0
            for s in base + [targets] + [n["s"] for n in nodes if n["kind"] != "model"]:
                own = 1 if s in bases else sum(1 for n in nodes if n["s"] is s and n["held"])
                e = own + expected_refs(s)
                sim.check(s.ref_count == e, "reference-count", lambda: f"{type(s).__name__} has {s.ref_count} references, expected {e}")

        bases = base + [targets]
        for o in objs:
            o.missed = {}

        fires = [0, 0]

        def do(op):
            fires[:] = 0, 0
            acted[0] = False
            before = {n["id"]: (n["s"].value, len(n["seen"])) for n in nodes if not n["closed"]}
            if op[0] == "create":
                if all(not o.fail for o in objs):
                    create(op[1])
            elif op[0] == "set":
                sim.log("set", op[1], op[2])
                base[op[1]].value = op[2]
            elif op[0] == "prop":
                o = objs[op[1]]
                o.fail = op[3]
                o._value = op[2]
                o.notify_property_changed("other")
                fires[op[1]] += not o.fail
                o.notify_property_changed("value")
                o.missed.clear()
                if o.fail:
                    for n in nodes:
                        o.missed[n["id"]] = True
                    o.fail = False
            elif op[0] == "target":
                t = None if op[1] is None else objs[op[1]]
                if targets.value is not t:
                    targets.value = t
                    for n in nodes:
                        if n["kind"] == "prop" and t is not None:
                            t.missed.pop(n["id"], None)
            elif op[0] == "watch":
                if op[1] < len(nodes) and not nodes[op[1]]["closed"]:
                    n = nodes[op[1]]
                    sim.log("watch", op[1], op[2])
                    n["tokens"] = (n["tokens"] or n["watch"]()) if op[2] else []
            elif op[0] == "release":
                if op[1] < len(nodes):
                    release(nodes[op[1]])
            settle_closed()
            check(before)

        for op in plan["ops"]:
            do(op)
        order = list(range(len(nodes)))
        import random
        random.Random(int(plan["drop"] * 1e9)).shuffle(order)
        for i in order:
            do(["release", i])
        for b in range(NB):
            do(["set", b, 99])
        for s in bases:
            s.remove_ref()
            sim.check(s.ref_count == 0, "reference-count", f"{type(s).__name__} still has {s.ref_count} references after everything was released")
