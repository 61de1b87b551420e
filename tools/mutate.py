"""mutate.py FILE... [--runs N] [--jobs N] [--out LOG]   mutation test of the checks (development tool, no check uses it).
Makes small changes of nion/utils/FILE in scratch copies; those the repository's tests do not notice are given to the
properties anchored in that file. Prints the survivors."""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = {
    "Event.py": ["C01", "C02", "C03"], "ReferenceCounting.py": ["C04"], "Promise.py": ["C05"], "Process.py": ["C06", "C07", "C15"],
    "ThreadPool.py": ["C08", "C09", "C10"], "Stream.py": ["C11", "C12", "C13"], "Model.py": ["C13", "C14", "C22", "C23"],
    "ListModel.py": ["C16", "C17", "C18", "C26"], "Observable.py": ["C16", "C19", "C22"], "Selection.py": ["C18"], "Persistence.py": ["C19", "C20", "C25"],
    "Recorder.py": ["C24", "C26"], "Registry.py": ["C21"], "StructuredModel.py": ["C22"], "Binding.py": ["C23", "C26"],
}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    enc = src.isascii()
    assert enc

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def sub(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, f"{n.lineno}: {what}: {src[a:b].splitlines()[0][:90]!r} -> {new.splitlines()[0][:90]!r}"))
    cmps = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "==", ast.IsNot: "!=", ast.In: "not in", ast.NotIn: "in"}
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While)):
            t = n.test
            sub(t, f"not ({seg(t)})", "negate")
            if isinstance(n, ast.If):
                sub(t, "True", "always")
            sub(t, "False", "never")
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and seg(t.comparators[0]) == "None":
                sub(t, seg(t.left) if isinstance(t.ops[0], ast.IsNot) else f"not {seg(t.left)}", "truthiness")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in cmps:
            sub(n, f"{seg(n.left)} {cmps[type(n.ops[0])]} {seg(n.comparators[0])}", "compare")
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                rest = [seg(x) for x in n.values if x is not v]
                sub(n, (" and " if isinstance(n.op, ast.And) else " or ").join(rest), "drop operand")
            sub(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({seg(v)})" for v in n.values), "swap and/or")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            sub(n, str(n.value + 1), "constant")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            sub(n, str(not n.value), "constant")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            sub(n, f"{seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {seg(n.right)}", "arith")
            sub(n, seg(n.left), "arith")
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ("list", "copy.copy", "copy.deepcopy", "dict", "set", "sorted", "reversed", "tuple") and len(n.args) == 1:
                sub(n, seg(n.args[0]), "no copy")
            if len(n.args) + len(n.keywords) > 1 and n.keywords:
                for k in n.keywords:
                    if k.arg:
                        rest = [seg(x) for x in n.args] + [(f"{x.arg}=" if x.arg else "**") + seg(x.value) for x in n.keywords if x is not k]
                        sub(n, f"{f}({', '.join(rest)})", "drop argument")
        if isinstance(n, ast.With):
            a = starts[n.lineno - 1] + n.col_offset
            items_end = max(span(i.optional_vars or i.context_expr)[1] for i in n.items)
            if not any(i.optional_vars for i in n.items):
                out.append((a, items_end, "if True", f"{n.lineno}: unlock {src[a:items_end]!r}"))
        if isinstance(n, ast.Return) and n.value is not None and seg(n.value) != "None":
            sub(n, "return None", "return None")
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None and seg(h.type) == "Exception":
                    for e in ("ValueError", "RuntimeError"):
                        sub(h.type, e, "narrow handler")
            if n.finalbody and not n.handlers:
                # the clean-up happens only when nothing is raised
                a, _ = span(n)
                ind = " " * n.col_offset
                body = src[starts[n.body[0].lineno - 1]:starts[n.body[-1].end_lineno]]
                fin = src[starts[n.finalbody[0].lineno - 1]:starts[n.finalbody[-1].end_lineno]].replace("\n    ", "\n")
                out.append((a, span(n)[1], "if True:\n" + body.rstrip("\n") + "\n" + ind + fin.strip(), f"{n.lineno}: finally only on success"))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # one parameter or local taken for another in an argument or index
            names = [x.arg for x in n.args.args + n.args.kwonlyargs if x.arg != "self"]
            names += sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(names))
            for c in ast.walk(n):
                for x in (c.args if isinstance(c, ast.Call) else [c.slice] if isinstance(c, ast.Subscript) else []):
                    if isinstance(x, ast.Name) and x.id in names:
                        for other in names:
                            if other != x.id:
                                sub(x, other, f"other name for {src[starts[x.lineno - 1]:starts[x.lineno]].strip()[:70]!r}")
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if not isinstance(b, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i, s in enumerate(b):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.While, ast.Delete, ast.Raise, ast.Break, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    sub(s, "pass", "delete")
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.lineno == s.end_lineno:
                    sub(s, seg(s) + "; " + seg(s), "twice")
                if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.For)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.For)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    a1, b1 = span(s)
                    a2, b2 = span(b[i + 1])
                    out.append((a1, b2, src[a2:b2] + src[b1:a2] + src[a1:b1], f"{s.lineno}: swap with next: {src[a1:b1].splitlines()[0][:80]!r} / {src[a2:b2].splitlines()[0][:80]!r}"))
                # move the last statement of a with block out of it
            if isinstance(n, ast.With) and field == "body" and len(b) > 1:
                s = b[-1]
                a, e = span(s)
                if s.lineno == s.end_lineno:
                    ind = " " * n.col_offset
                    out.append((starts[s.lineno - 1], e, ind + src[a:e], f"{s.lineno}: moved out of with: {src[a:e][:90]!r}"))
    seen = set()
    res = []
    for a, b, new, what in out:
        t = src[:a] + new + src[b:]
        if t in seen or t == src:
            continue
        seen.add(t)
        try:
            compile(t, "x", "exec")
        except SyntaxError:
            continue
        res.append((t, what))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--runs", type=int, default=4000)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--out", default="/tmp/mut/survivors.log")
    a = ap.parse_args()
    todo = []
    for f in a.files:
        src = open(f"/repo/nion/utils/{f}").read()
        for i, (t, what) in enumerate(mutants(src)):
            if any(o in what for o in a.only.split(",")):
                todo.append((f, i, t, what))
    if a.limit:
        random.Random(1).shuffle(todo)
        todo = todo[:a.limit]
    print(len(todo), "mutants", flush=True)
    stats = dict(tests=0, caught=0, survived=0, other=0)
    log = open(a.out, "a")

    def one(m):
        f, i, t, what = m
        w = tempfile.mkdtemp(prefix="mut-")
        try:
            tree = w + "/repo"
            shutil.copytree("/repo", tree, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            open(f"{tree}/nion/utils/{f}", "w").write(t)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=tree)
            try:
                p = subprocess.run(f"{PY} -m pytest -q -x -p no:cacheprovider nion 2>&1 | tail -1", shell=True, cwd=tree, env=env, stdout=subprocess.PIPE, timeout=60, text=True)
            except subprocess.TimeoutExpired:
                return "tests", ""
            if not p.stdout.startswith("57 passed"):
                return "tests", ""
            shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
            res = []
            for prop in PROPS[f]:
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=tree, VERIF_RUNS=str(a.runs), VERIF_JOBS="1", VERIF_WALL="150")
                p = subprocess.run([sys.executable, "check.py", prop], cwd=w + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 1:
                    return "caught", prop
                if p.returncode != 0:
                    res.append(f"{prop} rc={p.returncode} {p.stdout[-200:]!r}")
            return ("other", "; ".join(res)) if res else ("survived", "")
        finally:
            shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        for m, (r, note) in zip(todo, ex.map(one, todo)):
            stats[r] += 1
            if r in ("survived", "other"):
                print(m[0], m[3], r, note, file=log, flush=True)
    print(a.files, stats, flush=True)


if __name__ == "__main__":
    main()
