"""Worker process: executes a slice of the seeds of one property (or a replay) under the simulator."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import argparse
import json
import signal
import time
import traceback

perf = time.perf_counter
LIMIT = 60.0  # real seconds for one execution, which takes milliseconds
HANG = f"an execution did not end: the code ran or waited for {LIMIT:.0f} s without reaching the scheduler"


class Watchdog:
    """Ends the process when an execution keeps the processor or waits outside the simulator."""

    def __init__(self, out):
        self.out = out
        signal.signal(signal.SIGALRM, self.handle)

    def start(self, answer):
        self.answer = answer
        signal.setitimer(signal.ITIMER_REAL, LIMIT)

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)

    def handle(self, *args):
        print(json.dumps(self.answer()), file=self.out)
        self.out.flush()
        os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--wall", type=float, default=1e9)
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--known", default="")
    a = ap.parse_args()
    out = sys.stdout
    t0 = perf()
    from dsim import engine
    eng = engine.Engine(a.prop)
    watch = Watchdog(out)
    if a.replay:
        watch.start(lambda: dict(status="violation", kind="hang", message=HANG, digest="hang", steps=0, trace=None))
        with open(a.replay) as f:
            r = json.load(f)
        o = eng.replay(r["plan"], r["decisions"], trace=a.trace)
        print(json.dumps(dict(status=o.status, kind=o.kind, message=o.message, digest=o.digest, steps=o.steps, trace=o.trace)), file=out)
        return
    if a.digests:
        digests = []
        for i in range(a.count):
            index = a.first + i * a.stride
            plan, o = eng.run_seed(a.tier, a.seed, index)
            digests.append([index, o.digest])
        print(json.dumps(dict(digests=digests)), file=out)
        return
    known = json.loads(a.known) if a.known else []
    stats = {}
    sigs = set()
    plans = set()
    runs = steps = switches = 0
    nontrivial = 0
    sim_time = 0.0
    samples = []
    violation = None
    errors = []
    styles = {}
    hist = 0
    nondet = 0
    rechecked = 0
    known_hits = {}
    stopped_early = False
    def result():
        return dict(runs=runs, steps=steps, switches=switches, nontrivial=nontrivial, sim_time=sim_time, stats=stats, styles=styles,
                    samples=samples, violation=violation, errors=errors, history=hist, nondet=nondet, rechecked=rechecked,
                    wall=perf() - t0, early=stopped_early, known_hits=known_hits, components=eng.scn.components, rule=eng.scn.rule,
                    sigs=sorted(sigs) if len(sigs) <= 2000000 else [])

    def hung():
        d = eng.decider.decisions if eng.decider is not None else {}
        r = result()
        r["violation"] = dict(index=index, kind="hang", message=HANG, plan=eng.plan, decisions={str(k): v for k, v in list(d.items())}, digest="hang")
        return r
    for i in range(a.count):
        if perf() - t0 > a.wall:
            stopped_early = True
            break
        index = a.first + i * a.stride
        watch.start(hung)
        plan, o = eng.run_seed(a.tier, a.seed, index)
        watch.stop()
        runs += 1
        steps += o.steps
        switches += o.switches
        sim_time += o.sim_time
        hist += o.history_len
        styles[o.style] = styles.get(o.style, 0) + 1
        for k, v in o.stats.items():
            stats[k] = stats.get(k, 0) + v
        if eng.scn.nontrivial(plan, o):
            key = hash((o.sig, o.digest))
            if key not in sigs:
                nontrivial += 1
                sigs.add(key)
        if len(samples) < 2 and o.status == "ok" and i % 7 == 3:
            samples.append(dict(index=index, plan=plan, schedule={str(k): v for k, v in sorted(o.decisions.items())[:20]}, steps=o.steps, switches=o.switches, digest=o.digest))
        if o.status == "ok" and i % 97 == 11:
            o2 = eng.replay(plan, o.decisions)
            rechecked += 1
            if o2.digest != o.digest:
                nondet += 1
        if o.status == "harness-error":
            errors.append(dict(index=index, message=o.message))
            if len(errors) >= 3:
                break
        if o.status == "violation":
            match = next((k for k in known if k["kind"] == o.kind and k["match"] in (o.message or "")), None)
            if match is not None:
                known_hits[match["id"]] = known_hits.get(match["id"], 0) + 1
                continue
            violation = dict(index=index, kind=o.kind, message=o.message, plan=plan, decisions=dict(o.decisions), digest=o.digest)
            break
    if violation is not None:
        p, d = violation["plan"], violation["decisions"]
        try:
            mp, md = eng.minimise(p, d, violation["kind"])
            o = eng.replay(mp, md)
            if o.status == "violation" and o.kind == violation["kind"]:
                violation["min"] = dict(plan=mp, decisions={str(k): v for k, v in md.items()}, kind=o.kind, message=o.message, digest=o.digest, steps=o.steps)
        except Exception:
            violation["min_error"] = traceback.format_exc()
        violation["decisions"] = {str(k): v for k, v in d.items()}
    print(json.dumps(result()), file=out)


if __name__ == "__main__":
    try:
        main()
        sys.stdout.flush()
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(70)
