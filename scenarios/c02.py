"""C02: failing listeners are contained; fire_any / fire_all answer correctly."""
import gc
import sys

from dsim.kit import Injected, ScenarioBase, clone, run_all, weighted

ANSWERS = {"T": True, "F": False, "N": None, "1": 1, "0": 0, "s": "yes", "e": ""}


class Nasty(Injected):
    def __str__(self):
        raise ValueError("no message")


class Ending(Injected, StopIteration):
    """would end a loop that took it for the end of its own sequence"""


class AsyncEnding(Injected, StopAsyncIteration):
    pass


class Bare(Injected):
    """no arguments"""


class Cell:
    """Holds a token in a reference cycle: only the collector can drop it."""


class Recorder:
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass


def make_exception(kind, mark):
    if kind == "X":
        return Injected(mark)
    if kind == "Y":
        return Nasty("nasty")
    if kind == "K":
        return KeyError(mark)
    if kind == "S":
        return Ending(mark)
    if kind == "A":
        return AsyncEnding(mark)
    if kind == "Z":
        return Bare()
    e = Injected(mark)
    e.__cause__ = StopIteration("inner")
    return e


class Scenario(ScenarioBase):
    stall_faults = False
    gc_faults = True
    components = {"real": ["nion.utils.Event"], "stub": ["listener functions (scripted answers and exceptions)", "threads and locks (simulated)", "standard error stream"]}
    rule = "A case is a seeded set of listeners with scripted answers/exceptions, 1-3 threads firing (fire, fire_any, fire_all) and closing, and a seeded schedule; non-trivial: at least one fire with a live listener."

    def gen(self, rng, tier):
        n = rng.choice((0, 1, 2, 3, 4, 5))
        mix = [(rng.choice((1, 3, 6)), "T"), (rng.choice((0, 1, 3)), "F"), (rng.choice((0, 1)), "N"), (rng.choice((0, 1)), "1"), (rng.choice((0, 1)), "0"),
               (rng.choice((0, 1)), "s"), (rng.choice((0, 0, 1)), "e"), (rng.choice((0, 0, 1, 2)), "X"), (rng.choice((0, 0, 1)), "Y"), (rng.choice((0, 0, 1)), "K"), (rng.choice((0, 0, 1)), "C"), (rng.choice((0, 0, 1)), "Z"),
               (rng.choice((0, 0, 0, 1)), "S"), (rng.choice((0, 0, 0, 1)), "A")]
        listeners = []
        for _ in range(n):
            listeners.append(dict(script=[weighted(rng, mix) for _ in range(rng.randrange(1, 4))], closed=rng.random() < 0.15))
        table = [(3, "fire"), (3, "any"), (3, "all"), (rng.choice((0, 1)), "close"), (rng.choice((0, 1)), "attach"), (rng.choice((0, 0, 1)), "drop"), (rng.choice((0, 0, 1)), "cycle"), (rng.choice((0, 0, 0.5)), "gc")]
        acts = {str(i): [weighted(rng, [(2, "close"), (2, "drop"), (2, "attach"), (1, "any"), (1, "all")]), rng.randrange(max(n, 1))] for i in range(n) if rng.random() < 0.12}
        threads = [dict(ops=[[weighted(rng, table), rng.randrange(max(n, 1))] for _ in range(rng.randrange(1, 6))]) for _ in range(rng.choice((1, 1, 2, 3)))]
        return dict(listeners=listeners, acts=acts, threads=threads, trace=rng.random() < 0.3, mix=[m for m in mix if m[0]])

    shrink_lists = ("threads", "ops", "listeners")

    def nontrivial(self, plan, o):
        return o.stats.get("calls", 0) > 0

    def run(self, sim, plan):
        event = self.m["Event"].Event(plan["trace"])
        recs = []
        tokens = {}
        fires = []
        marks = []
        err = sys.stderr = Recorder()
        depth = [0]

        def attach(script):
            lid = len(recs)
            rec = dict(ab=sim.seqno(), ae=None, db=None, ce=None, n=0)
            recs.append(rec)

            def called(fid):
                f = fires[fid]
                a = script[rec["n"] % len(script)]
                rec["n"] += 1
                f["calls"].append((lid, a, sim.seqno()))
                sim.count("calls")
                sim.log("call", lid, fid, a)
                sim.point()
                if a in "XYKCZSA":
                    sim.count("fault.listener_exception")
                    marks.append((a, f"mark-{len(marks)}."))
                    raise make_exception(*marks[-1])
                act = plan["acts"].get(str(lid))
                if act and len(fires) < 40 and depth[0] < 3:
                    depth[0] += 1
                    do(act)
                    depth[0] -= 1
                return ANSWERS[a]

            tokens[lid] = event.listen(called)
            rec["ae"] = sim.seqno()
            return lid

        def close(lid):
            if lid in tokens:
                recs[lid]["db"] = recs[lid]["db"] or sim.seqno()
                tokens[lid].close()
                recs[lid]["ce"] = sim.seqno()

        for x in plan["listeners"]:
            lid = attach(x["script"])
            if x["closed"]:
                close(lid)

        def do(op):
            kind, arg = op
            if kind == "close":
                close(arg)
            elif kind == "attach":
                attach(["T", "F"][arg % 2:])
            elif kind == "drop":
                if arg in tokens:
                    recs[arg]["db"] = recs[arg]["db"] or sim.seqno()
                    tokens.pop(arg, None)
            elif kind == "cycle":
                if arg in tokens:
                    recs[arg]["db"] = recs[arg]["db"] or sim.seqno()
                    c = Cell()
                    c.me, c.token = c, tokens[arg]
                    tokens.pop(arg, None)
            elif kind == "gc":
                sim.count("fault.gc")
                gc.collect()
            else:
                fid = len(fires)
                f = dict(kind=kind, b=sim.seqno(), e=None, calls=[], r=None)
                fires.append(f)
                sim.log(kind, fid)
                try:
                    f["r"] = {"fire": event.fire, "any": event.fire_any, "all": event.fire_all}[kind](fid)
                except Exception as e:
                    sim.fail("exception-escaped", f"{kind} {fid} raised {type(e).__name__}")
                f["e"] = sim.seqno()
                sim.log("answer", fid, repr(f["r"]))

        def client(ops):
            def go():
                for op in ops:
                    do(op)
                    sim.point()
            return go

        run_all(sim, [client(t["ops"]) for t in plan["threads"]])
        # still usable
        lid = attach(["T"])
        last = len(fires)
        do(["fire", 0])
        sim.check(any(c[0] == lid for c in fires[last]["calls"]), "not-usable", "a listener attached after the failures was not called")
        text = "".join(err.text)
        for kind, mark in marks:
            sim.check(kind == "Y" or (mark if kind != "Z" else "Bare") in text, "not-reported", f"a listener's exception ({mark}) does not appear on standard error")
        for i, f in enumerate(fires):
            self.verdict(sim, i, f, recs)

    def verdict(self, sim, i, f, recs):
        calls = f["calls"]
        names = [c[0] for c in calls]
        desc = f"{f['kind']} {i}: calls {[(c[0], c[1]) for c in calls]} returned {f['r']!r}"
        sim.check(len(set(names)) == len(names), "called-twice", desc)
        for lid, a, seq in calls:
            sim.check(recs[lid]["ce"] is None or recs[lid]["ce"] > f["b"], "closed-called", desc)
        for j, a in enumerate(names):
            for b in names[j + 1:]:
                sim.check(not recs[b]["ae"] < recs[a]["ab"], "wrong-order", desc)
        stable = [lid for lid, r in enumerate(recs) if r["ae"] is not None and r["ae"] < f["b"] and (r["db"] is None or r["db"] > f["e"])]
        truthy = [a not in "XYKCZSA" and bool(ANSWERS[a]) for _, a, _ in calls]
        raised = [a in "XYKCZSA" for _, a, _ in calls]
        falsy = [not t and not r for t, r in zip(truthy, raised)]
        if f["kind"] == "fire":
            missing = [lid for lid in stable if lid not in names]
            sim.check(not missing, "missed-listener", f"{desc}; attached throughout but not called: {missing}")
            return
        if f["kind"] == "any":
            sim.check(not any(truthy[:-1]), "any-continued", desc)
            sim.check(bool(f["r"]) == (bool(truthy) and truthy[-1]), "any-answer", desc)
            decided = bool(f["r"])
        else:
            sim.check(not any(falsy[:-1]), "all-continued", desc)
            if any(raised):
                sim.check(not f["r"], "all-answer", desc + " although a listener failed")
            elif any(falsy):
                sim.check(not f["r"], "all-answer", desc)
            else:
                sim.check(bool(f["r"]), "all-answer", desc + " although no listener answered false")
            decided = any(falsy)
        if not decided and not any(raised):
            missing = [lid for lid in stable if lid not in names]
            sim.check(not missing, "missed-listener", f"{desc}; attached throughout but not asked: {missing}")
        # a true/false answer must come from the first deciding listener in order
        if decided:
            last = names[-1]
            skipped = [lid for lid in stable if lid not in names and recs[lid]["ae"] < recs[last]["ab"]]
            sim.check(not skipped, "missed-listener", f"{desc}; skipped {skipped}")
