"""plant.py SPEC.py...   write /verif/seeded/<id>/ from specs and confirm each: applies, builds, tests pass, demo tells the trees apart, check result.
A spec defines: id, prop, file, edits [(old, new), ...], demo (Python text), needs, breaks."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def one(spec):
    s = runpy.run_path(spec)
    sid = s["id"]
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = os.path.join(work, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        path = os.path.join(tree, "nion", "utils", s["file"])
        text = open(path).read()
        for old, new in s["edits"]:
            assert text.count(old) == 1, f"{sid}: {text.count(old)} matches of {old!r}"
            text = text.replace(old, new)
        open(path, "w").write(text)
        diff = sh("git diff", tree).stdout
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run in the source tree; exits 0 when the property holds\ncd "${REPO:-$PWD}"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 60 /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py" 2>/dev/null\n'.replace('cd "${REPO:-$PWD}"\n', '').replace('"$(dirname "$(realpath "$0")")/demo.py"', '"$(dirname "$0")/demo.py"'))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = f"bash {d}/demo.sh"
        ok = sh(demo, "/repo").returncode
        bad = sh(demo, tree).returncode
        t = sh(f"{PY} -m pytest -q -p no:cacheprovider nion 2>&1 | tail -1", tree).stdout.strip()
        c = sh(f"{sys.executable} check.py {s['prop']}", HERE, env=dict(ENV, VERIF_REPO=tree, **({} if "VERIF_RUNS" not in os.environ else {})))
        lines = c.stdout.strip().splitlines()
        verdict = "CAUGHT" if c.returncode == 1 else f"MISSED rc={c.returncode}"
        good = ok == 0 and bad != 0 and t.startswith("57 passed")
        print(f"{sid} {s['prop']} clean={ok} patched={bad} tests={t[:12]!r} {verdict} {'' if good else 'INVALID'} | {next((l for l in lines if 'kind=' in l), lines[-1])[:160]}", flush=True)
    finally:
        shutil.rmtree(work)


for spec in sys.argv[1:]:
    try:
        one(spec)
    except Exception as e:
        print(spec, "ERROR", e, flush=True)
