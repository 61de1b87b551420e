"""C18: selections follow their items through list changes, obey their style and announce exactly their changes."""
import random

from dsim.kit import Injected, ScenarioBase, from_end, other_index, weighted

STYLES = ("none", "single", "single_or_none", "multiple")


class Scenario(ScenarioBase):
    scheduled = False
    max_steps = 3000000
    components = {"real": ["nion.utils.Selection.IndexedSelection", "nion.utils.ListModel (MappedListModel, FlattenedListModel, FilteredListModel, ListModel)", "nion.utils.Observable", "nion.utils.Event"], "stub": ["items", "observers (scripted failures)"]}
    rule = "A case is a seeded history of selection gestures on several selections interleaved with list changes at any position, with failing observers; non-trivial: a list change happened while something was selected."
    shrink_lists = ("ops", "sels")

    def gen(self, rng, tier):
        r = rng.random
        kinds = [weighted(rng, [(3, ["mapped"]), (4, ["flattened"]), (1, ["filtered", "mapped"]), (1, ["filtered", "flattened"]), (1, ["flattened", "mapped"]), (1, ["mapped", "flattened"]), (1, ["flattened", "flattened"]), (1.5, ["filtered"]), (0.7, ["mapped", "filtered"]), (0.7, ["flattened", "filtered"])])][0]
        sels = [[rng.choice(STYLES + ("multiple", "multiple")), r() < 0.5] for _ in range(rng.choice((1, 1, 2, 3)))]
        # at most one selection is given to the constructor
        for i, s in enumerate(sels):
            if i:
                s[1] = False
        ops = []
        for _ in range(rng.randrange(1, 6)):
            ops.append(["ins", r()])
        if r() < 0.02:
            ops.extend(["ins", r()] for _ in range(rng.randrange(20, 120)))
            ops.extend(["kidins", r(), r()] for _ in range(rng.choice((0, 60))))
        for _ in range(rng.randrange(1, 6)):
            ops.append(["kidins", r(), r()])
        for _ in range(rng.randrange(3, 25 if tier == "quick" else 80)):
            s = rng.randrange(len(sels))
            k = weighted(rng, [(4, "ins"), (3, "del"), (5, "kidins"), (3, "kiddel"), (1, "filter"), (0.5, "target"), (4, "set"), (4, "add"), (2, "remove"), (3, "toggle"), (3, "extend"), (1, "range"), (2, "multi"), (1.5, "clear"), (0.5, "make"), (0.5, "release"), (0.3, "style")])
            if k in ("ins", "del"):
                ops.append([k, r()])
            elif k in ("kidins", "kiddel"):
                ops.append([k, r(), r()])
            elif k == "filter":
                ops.append([k, rng.randrange(3)])
            elif k in ("target", "make"):
                ops.append([k, rng.randrange(3)])
            elif k in ("set", "add", "remove", "toggle", "extend"):
                ops.append([k, s, r()])
            elif k == "range":
                ops.append([k, s, r(), r()])
            elif k == "multi":
                ops.append([k, s, [r() for _ in range(rng.choice((0, 1, 1, 2, 3)))]])
            elif k == "style":
                ops.append([k, s, rng.choice(STYLES)])
            else:
                ops.append([k, s])
        return dict(kinds=kinds, sels=sels, ops=ops, pf=rng.choice((0, 0, 0.1, 0.4)), fseed=rng.getrandbits(16), nested=r() < 0.5, odd=r() < 0.2)

    def nontrivial(self, plan, o):
        return o.stats.get("followed", 0) > 0

    def run(self, sim, plan):
        LM, Sel = self.m["ListModel"], self.m["Selection"]
        frng = random.Random(plan["fseed"])
        place = other_index if plan.get("odd") else lambda i, n, f: i
        index = from_end if plan.get("odd") else lambda i, n, f: i
        count = [0]

        class Item(LM.ListModel):
            def __init__(self):
                super().__init__("kids")
                self.id = count[0]
                count[0] += 1

            def __hash__(self):
                return self.id

            def __repr__(self):
                return f"i{self.id}"

        class Wrapped:
            def __init__(self, src):
                self.src = src
                self.item_inserted_event = src.item_inserted_event
                self.item_removed_event = src.item_removed_event

            kids = property(lambda self: self.src.kids)

        src = LM.ListModel("things")
        src2 = LM.ListModel("things")
        models = []
        container, key = src, "things"
        mine = Sel.IndexedSelection(getattr(Sel.Style, plan["sels"][0][0])) if plan["sels"] and plan["sels"][0][1] else None
        for i, kind in enumerate(plan["kinds"]):
            last = i == len(plan["kinds"]) - 1
            kw = dict(selection=mine) if last and mine is not None else {}
            if kind == "mapped":
                m = LM.MappedListModel(container=container, master_items_key=key, items_key=f"k{i}", map_fn=Wrapped, **kw)
            elif kind == "filtered":
                # with a selection of its own only while it shows its whole source, in order (see DESIGN.md)
                m = LM.FilteredListModel(container=container, master_items_key=key, items_key=f"k{i}", **kw)
            else:
                m = LM.FlattenedListModel(container=container, master_items_key=key, child_items_key="kids", items_key=f"k{i}", **kw)
            models.append(m)
            container, key = m, f"k{i}"
        model = models[-1]
        cells = [[x] for x in model.items]

        def bad(*a):
            if frng.random() < plan["pf"]:
                sim.count("fault.observer_exception")
                raise Injected("observer")

        def ins(key, item, index):
            sim.log("insert", index)
            cells.insert(index, [item])

        def rem(key, item, index):
            sim.log("remove", index)
            c = cells.pop(index)
            for s in sels:
                s["sel"] = [x for x in s["sel"] if x is not c]
                if s["anchor"] is c:
                    s["anchor"] = "?"

        tokens = [model.item_inserted_event.listen(bad), model.item_removed_event.listen(bad), model.item_inserted_event.listen(ins), model.item_removed_event.listen(rem)]
        sels = []

        def new_sel(style, sel):
            s = dict(sel=[], s=sel, style=style, attached=True, fired=[], name=len(sels), anchor=None)
            sel.selection_style = getattr(Sel.Style, style)

            def changed():
                sim.log("changed", s["name"], sorted(sel.indexes))
                s["fired"].append((set(sel.indexes), sel.anchor_index))
            s["tokens"] = [sel.changed_event.listen(bad), sel.changed_event.listen(changed)]
            sels.append(s)

        for i, (style, given) in enumerate(plan["sels"]):
            new_sel(style, mine if given and mine is not None else model.make_selection())

        def where(s):
            return {i for i, c in enumerate(cells) if any(c is x for x in s["sel"])}

        # the anchor is a cell, None, or "?" where it is not specified (its own item was unselected or removed): then what the selection says is adopted
        def anchor_index(s):
            for i, c in enumerate(cells):
                if c is s["anchor"]:
                    return i
            return None

        def adopt(s):
            a = s["s"].anchor_index
            sim.check(a is None or not s["attached"] or 0 <= a < len(cells), "no-item", lambda: f"the anchor of selection {s['name']} is {a}, there are {len(cells)} items")
            s["anchor"] = None if a is None else cells[a]

        def check(what, gesture=None):
            for s in sels:
                if not s["attached"]:
                    continue
                real = set(s["s"].indexes)
                want = where(s)
                sim.check(real == want, "wrong-selection", lambda: f"after {what} selection {s['name']} ({s['style']}) is {sorted(real)}, its items are at {sorted(want)} of {len(cells)}")
                sim.check(s["s"].has_selection == bool(want) and all(s["s"].contains(i) for i in want) and s["s"].current_index == (next(iter(want)) if len(want) == 1 else None)
                          and sorted(s["s"].ordered_indexes) == sorted(want), "inconsistent", lambda: f"after {what} selection {s['name']}: queries disagree with {sorted(real)}")
                if s["anchor"] == "?":
                    adopt(s)
                a = anchor_index(s)
                sim.check(s["s"].anchor_index == a, "wrong-anchor", lambda: f"after {what} the anchor of selection {s['name']} is {s['s'].anchor_index}, its item is at {a}")
                if a in want:
                    sim.check(list(s["s"].ordered_indexes) == [a] + sorted(want - {a}), "inconsistent", lambda: f"after {what} selection {s['name']} orders {sorted(want)} with anchor {a} as {s['s'].ordered_indexes}")
                if s["style"] in ("single", "single_or_none"):
                    sim.check(len(real) <= 1, "style", lambda: f"after {what}: a {s['style']} selection holds {sorted(real)}")
                if s["style"] == "none":
                    sim.check(not real, "style", lambda: f"after {what}: a no-selection style holds {sorted(real)}")
                if gesture is not s:
                    sim.check(not s["fired"], "spurious-change", lambda: f"{what} announced a change of selection {s['name']}")

        def gesture(s, what, fn, expect, ranged=False, anchor=lambda s: None):
            """expect: set of cells after the gesture, or a function of the real result returning a message"""
            before = where(s)
            s["fired"].clear()
            sim.log("gesture", s["name"], what)
            fn(s["s"])
            real = set(s["s"].indexes)
            if callable(expect):
                msg = expect(before, real)
                sim.check(msg is None, "wrong-gesture", lambda: f"{what} on {sorted(before)} of {len(cells)} gave {sorted(real)}: {msg}")
            else:
                sim.check(real == expect, "wrong-gesture", lambda: f"{what} on {sorted(before)} ({s['style']}) of {len(cells)} gave {sorted(real)}, expected {sorted(expect)}")
            sim.check(all(0 <= i < len(cells) for i in real), "no-item", lambda: f"{what} on {sorted(before)} selected {sorted(real)}, there are {len(cells)} items")
            if s["style"] == "single" and before:
                sim.check(len(real) == 1, "style", lambda: f"{what} left a must-have-one selection with {sorted(real)}")
            if ranged:
                sim.check(bool(s["fired"]) or real == before, "change-not-sent", lambda: f"{what} changed {sorted(before)} to {sorted(real)} without notification")
            else:
                sim.check(len(s["fired"]) == (1 if real != before else 0), "change-not-sent" if real != before else "spurious-change", lambda: f"{what} changed {sorted(before)} to {sorted(real)} with {len(s['fired'])} notifications")
            if s["fired"]:
                seen, at_a = s["fired"][-1]
                sim.check(seen == real, "stale-change", lambda: f"{what}: observer saw {sorted(seen)}, selection is {sorted(real)}")
                sim.check(at_a == s["s"].anchor_index, "stale-change", lambda: f"{what}: observer saw the anchor at {at_a}, it is at {s['s'].anchor_index}")
            s["sel"] = [cells[i] for i in sorted(real)]
            anchor(s)
            check(what, s)
            s["fired"].clear()

        def one_of(s, idx):
            adopt(s)
            a = s["s"].anchor_index
            want = set(s["s"].indexes)
            sim.check(a in want if want else a is None, "wrong-anchor", lambda: f"the anchor is {a} although {sorted(want)} was just selected")

        def real_changed(k, now, i):
            return k in ("add", "extend") or (k == "toggle" and i not in now)

        pool = []

        def at(f, n):
            return min(int(f * n), n - 1)

        def do(op):
            k = op[0]
            n = len(cells)
            if k in ("ins", "del", "kidins", "kiddel", "filter", "target"):
                sim.count("followed", sum(1 for s in sels if s["sel"]))
                if k == "ins":
                    it = Item()
                    pool.append(it)
                    if plan["nested"]:
                        for _ in range(it.id % 3):
                            kid = Item()
                            pool.append(kid)
                            it.append_item(kid)
                    src.insert_item(place(int(op[1] * (len(src.items) + 1)), len(src.items), op[1]), it)
                elif k == "del" and src.items:
                    src.remove_item(index(at(op[1], len(src.items)), len(src.items), op[1]))
                elif k == "kidins" and pool:
                    p = pool[at(op[1], len(pool))]
                    it = Item()
                    pool.append(it)
                    p.insert_item(place(int(op[2] * (len(p.items) + 1)), len(p.items), op[2]), it)
                elif k == "kiddel":
                    ps = [p for p in pool if p.items]
                    if ps:
                        p = ps[at(op[1], len(ps))]
                        p.remove_item(index(at(op[2], len(p.items)), len(p.items), op[2]))
                elif k == "filter" and plan["kinds"][0] == "filtered" and len(models) > 1:
                    models[0].filter = [LM.Filter(True), LM.PredicateFilter(lambda x: x.id % 2 == 0), LM.PredicateFilter(lambda x: x.id % 3 != 0)][op[1]]
                elif k == "target":
                    models[0].container = [src, src2, None][op[1]]
                check(str(op))
                return
            if k == "make":
                if len(sels) < 5:
                    new_sel("multiple", model.make_selection())
                return
            s = sels[op[1] % len(sels)] if sels else None
            if s is None or not s["attached"]:
                return
            if k == "release":
                model.release_selection(s["s"])
                s["attached"] = False
                s["frozen"] = set(s["s"].indexes)
                return
            if k == "style":
                if n == 0 and op[2] == "single":
                    return
                s["style"] = op[2]
                s["s"].selection_style = getattr(Sel.Style, op[2])
                # changing the style is followed by a gesture that establishes it
                s["s"].clear() if op[2] != "single" else s["s"].set(0)
                s["fired"].clear()
                s["sel"] = [cells[i] for i in sorted(s["s"].indexes) if i < n]
                s["anchor"] = "?"
                check("style", s)
                return
            if n == 0 and k in ("set", "add", "remove", "toggle", "extend", "range", "multi"):
                return
            if n == 0 and s["style"] == "single":
                return  # a must-have-one selection of nothing
            style = s["style"]
            now = where(s)
            single = style in ("single", "single_or_none")
            cleared = (lambda before, real: None if len(real) == 1 else "a must-have-one selection holds exactly one") if style == "single" else set()
            if k in ("set", "add", "remove", "toggle", "extend"):
                i = at(op[2], n)
                if k == "remove":
                    if style in ("multiple", "single_or_none"):
                        if not now:
                            return
                        i = sorted(now)[at(op[2], len(now))]
                fn = lambda sel: getattr(sel, k)(i)
                if style == "none":
                    want = set()
                elif k == "set":
                    want = {i}
                elif k == "add":
                    want = {i} if single else now | {i}
                elif k == "remove":
                    want = now if style == "single" else now - {i}
                elif k == "toggle":
                    if i in now:
                        want = now if style == "single" else now - {i}
                    else:
                        want = {i} if single else now | {i}
                elif single:
                    want = {i}
                else:
                    a = anchor_index(s)
                    if a is None:
                        want = now | {i}
                    elif a == i and a not in now:
                        want = lambda before, real: None if real in (now, now | {i}) else "more than the one item"
                    else:
                        want = now | set(range(min(a, i), max(a, i) + 1))

                def anchor(s):
                    if style == "none":
                        s["anchor"] = None
                    elif k == "set" or (single and real_changed(k, now, i)):
                        s["anchor"] = cells[i]
                    elif k == "add" or (k == "toggle" and i not in now):
                        if not now:
                            s["anchor"] = cells[i]
                    elif k == "extend":
                        if s["anchor"] is None:
                            s["anchor"] = cells[i]
                    elif style != "single" and not any(c is s["anchor"] for c in s["sel"]):
                        s["anchor"] = "?"
                gesture(s, f"{k}({i})", fn, want, False, anchor)
            elif k == "range":
                a, b = sorted((at(op[2], n), at(op[3], n)))
                want = set() if style == "none" else ({b} if single else now | set(range(a, b + 1)))
                gesture(s, f"add_range({a},{b + 1})", lambda sel: sel.add_range(range(a, b + 1)), want, True,
                        lambda s: s.update(anchor=None if style == "none" else cells[b] if single else s["anchor"] if now else cells[a]))
            elif k == "multi":
                idx = {at(f, n) for f in op[2]}
                want = set() if style == "none" else idx if style == "multiple" or len(idx) == 1 else cleared
                given = set(idx)
                gesture(s, f"set_multiple({sorted(idx)})", lambda sel: sel.set_multiple(given), want, False, lambda s: one_of(s, idx))
                given.add(10 ** 6)  # the caller's set is the caller's
                check("the caller changed the set it had given")
            elif k == "clear":
                gesture(s, "clear()", lambda sel: sel.clear(), cleared, False, lambda s: one_of(s, s["s"].indexes))

        for op in plan["ops"]:
            do(op)
        for m in reversed(models):
            m.close()
        check("close")
        for s in sels:
            if not s["attached"]:
                sim.check(set(s["s"].indexes) == s["frozen"], "released-selection", lambda: f"a released selection changed from {sorted(s['frozen'])} to {sorted(s['s'].indexes)}")
