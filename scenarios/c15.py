"""C15: closing an event loop finishes the outstanding work first."""
import asyncio
import threading
import time

from dsim.aio import SimLoop
from dsim.kit import Injected, ScenarioBase, weighted


class Scenario(ScenarioBase):
    components = {"real": ["nion.utils.Process.close_event_loop", "asyncio event loop, tasks and futures", "concurrent.futures.ThreadPoolExecutor"], "stub": ["selector, clock, threads and locks (simulated)", "tasks and executor jobs (scripted)"]}
    rule = "A case is a seeded set of tasks (sleeping, failing, cancelled, stubborn, executor-bound, dependent) and executor jobs outstanding at the call, and a seeded schedule; non-trivial: at least one task or job was outstanding."

    def gen(self, rng, tier):
        def t():
            k = weighted(rng, [(3, "sleep"), (2, "fail"), (2, "cancelled"), (1, "stubborn"), (3, "exec"), (1, "execfail"), (1, "job"), (1, "jobfail"), (1, "wait"), (1, "canceller"), (1, "spawn"), (1, "jobcallback"), (1, "instant")])
            return [k, rng.choice((0, 0.001, 0.05, 1.0)), rng.choice((0, 0.01, 0.5))]
        return dict(tasks=[t() for _ in range(rng.randrange(0, 7))], warm=rng.choice((0, 0, 1, 3)), workers=rng.choice((None, 1, 2)), in_loop=rng.random() < 0.3, submitted=[[rng.choice((0, 0.001, 0.05)), rng.random() < 0.3] for _ in range(rng.choice((0, 0, 0, 1, 2)))])

    shrink_lists = ("tasks", "submitted")

    def nontrivial(self, plan, o):
        return o.stats.get("outstanding", 0) > 0

    def run(self, sim, plan):
        loop = SimLoop(sim)
        asyncio.set_event_loop(loop)
        if plan["workers"]:
            import concurrent.futures
            loop.set_default_executor(concurrent.futures.ThreadPoolExecutor(max_workers=plan["workers"]))
        tasks = []
        jobs = []
        finished = {}
        futures = []

        def job(dt, fail, callback=None):
            j = dict(done=False, started=False, future=None)
            jobs.append(j)

            def work():
                j["started"] = True
                sim.log("job")
                sim.point()
                if dt:
                    time.sleep(dt)
                j["done"] = True
                if callback is not None:
                    loop.call_soon_threadsafe(callback)
                if fail:
                    sim.count("fault.job_exception")
                    raise Injected("job")
            j["future"] = loop.run_in_executor(None, work)
            return j["future"]

        async def body(i, kind, a, b):
            try:
                if kind == "instant":
                    return i
                if kind == "stubborn":
                    try:
                        await asyncio.sleep(a + 0.01)
                    except asyncio.CancelledError:
                        await asyncio.sleep(b)
                elif kind in ("exec", "execfail"):
                    await asyncio.sleep(a)
                    await job(b, kind == "execfail")
                elif kind == "wait":
                    await asyncio.sleep(a)
                    others = [t for t in tasks[:i]]
                    if others:
                        await asyncio.wait(others)
                elif kind == "canceller":
                    await asyncio.sleep(a)
                    for t in tasks[:i][-2:]:
                        sim.count("fault.cancel")
                        t.cancel()
                elif kind == "spawn":
                    await asyncio.sleep(a)
                    loop.create_task(body(i, "sleep", b, 0))
                elif kind == "jobcallback":
                    f = loop.create_future()
                    futures.append(job(b, False, lambda: f.done() or f.set_result(1)))
                    await f
                else:
                    await asyncio.sleep(a)
                    if kind == "fail":
                        sim.count("fault.task_exception")
                        raise Injected("task")
            finally:
                finished[i] = True

        for i, (kind, a, b) in enumerate(plan["tasks"]):
            if kind in ("job", "jobfail"):
                futures.append(job(b, kind == "jobfail"))
                tasks.append(loop.create_future())
                tasks[-1].set_result(None)
                finished[i] = True
                continue
            t = loop.create_task(body(i, kind, a, b))
            tasks.append(t)
            if kind == "cancelled" and b:
                loop.call_later(a / 2, t.cancel)
            elif kind == "cancelled":
                t.cancel()
        for _ in range(plan["warm"]):
            loop.stop()
            loop.run_forever()
        if plan["in_loop"]:
            loop.run_until_complete(asyncio.sleep(0.02))
        given = []

        async def handed(dt, fail):
            await asyncio.sleep(dt)
            if fail:
                sim.count("fault.task_exception")
                raise Injected("task")

        def hand():
            for dt, fail in plan["submitted"]:
                given.append((asyncio.run_coroutine_threadsafe(handed(dt, fail), loop), fail))
        if plan["submitted"]:
            # coroutines handed to the loop from another thread just before
            th = threading.Thread(target=hand)
            th.start()
            th.join()
        outstanding = [i for i, t in enumerate(tasks) if not t.done()]
        sim.count("outstanding", len(outstanding) + len(given) + sum(1 for j in jobs if not j["done"]))
        try:
            self.m["Process"].close_event_loop(loop)
        except Exception as e:
            sim.fail("raised", f"close_event_loop raised {type(e).__name__}: {e}")
        left = [i for i in outstanding if not tasks[i].done()]
        sim.check(not left, "task-unfinished", lambda: f"tasks {[(i, plan['tasks'][i]) for i in left]} were outstanding and are not done after close")
        for i in outstanding:
            if not tasks[i].cancelled() or plan["tasks"][i][0] == "stubborn":
                tasks[i].cancelled() or tasks[i].exception()
        sim.check(all(j["done"] or (not j["started"] and j["future"].cancelled()) for j in jobs), "job-unfinished", "an executor job has not finished when close returns")
        for f, fail in given:
            sim.check(f.done() and not f.cancelled() and (f.exception() is not None) == fail, "task-unfinished", "a coroutine handed to the loop before the call did not run to its end")
        sim.check(loop.is_closed(), "not-closed", "the loop is not closed")
        kinds = [k for k, _, _ in plan["tasks"]]
        if "canceller" not in kinds:
            for i in outstanding:
                if plan["tasks"][i][0] in ("sleep", "exec", "wait", "spawn", "jobcallback", "instant", "stubborn"):
                    t = tasks[i]
                    sim.check(not t.cancelled() and t.exception() is None, "task-disturbed", lambda: f"task {i} {plan['tasks'][i]} did not complete: {'cancelled' if t.cancelled() else t.exception()!r}")
        asyncio.set_event_loop(None)
