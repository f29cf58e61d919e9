#!/usr/bin/env python3
"""plant.py SPEC.py...: build and validate planted bugs. A spec defines ID, PROP, EDITS, NEEDS, BREAKS, DEMO.

The bug is made in a scratch copy of /repo; the stable tests, the demo and the property's check run against the copy.
It is kept in seeded/<ID> if the tests pass and the demo tells the two trees apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parents[1]
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO_SH = '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$PWD" /opt/venv/bin/python "$d/demo.py"\n'


def env(tree, scratch):
    e = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", HOME="/root", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             HF_HUB_OFFLINE="1", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             XDG_CACHE_HOME=f"{scratch}/xdg", MPLCONFIGDIR=f"{scratch}/mpl", PYTHONPATH=f"{tree}/src:{tree}", MODSSC_TREE=str(tree))
    for k in ("HF_DATASETS_OFFLINE", "TRANSFORMERS_OFFLINE", "PIP_NO_INDEX"):
        e[k] = "1"
    return e


def one(spec):
    s = runpy.run_path(spec)
    sid = s["ID"]
    scratch = tempfile.mkdtemp(prefix=f"plant-{sid}-")
    log = []
    try:
        tree = Path(scratch) / "repo"
        subprocess.run(["cp", "-a", REPO, str(tree)], check=True)
        subprocess.run(["git", "-C", str(tree), "checkout", "-q", "--", "."], check=True)
        demo = V / "seeded" / sid
        stage = Path(scratch) / "seed"
        stage.mkdir()
        (stage / "demo.py").write_text(s["DEMO"].lstrip())
        (stage / "demo.sh").write_text(DEMO_SH)
        os.chmod(stage / "demo.sh", 0o755)
        e = env(tree, scratch)
        r = subprocess.run([stage / "demo.sh"], cwd=tree, env=e, capture_output=True, text=True, timeout=300)
        if r.returncode != 0:
            return sid, False, f"demo fails on the clean tree: {r.stdout[-800:]}{r.stderr[-800:]}"
        for f, old, new in s["EDITS"]:
            p = tree / f
            t = p.read_text()
            if t.count(old) != 1:
                return sid, False, f"{f}: {t.count(old)} matches of {old[:60]!r}"
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(tree), "diff"], capture_output=True, text=True).stdout
        (stage / "patch.diff").write_text(diff)
        (stage / "meta.json").write_text(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        r = subprocess.run([stage / "demo.sh"], cwd=tree, env=e, capture_output=True, text=True, timeout=300)
        if r.returncode == 0:
            return sid, False, "demo passes with the bug"
        log.append("demo: " + (r.stderr.strip().splitlines() or ["?"])[-1][:150])
        r = subprocess.run([PY, "-m", "pytest", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "-q", "-x" if "-x" in sys.argv else "-q",
                            "-o", "junit_family=xunit2", f"--junitxml={scratch}/j.xml"], cwd=tree, env=e, capture_output=True, text=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{scratch}/o.json", f"junit:{scratch}/j.xml"], cwd=tree, capture_output=True)
        o = json.load(open(f"{scratch}/o.json"))
        bad = sorted(set(BASE["stable"]) - set(o["passed"]))
        if bad:
            return sid, False, f"{len(bad)} stable tests fail: {bad[:3]}"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(stage, demo)
        if "--nocheck" not in sys.argv:
            r = subprocess.run([str(V / "run.sh"), s["PROP"]], cwd=V, env=dict(e, VERIF_TIER="quick"), capture_output=True, text=True)
            caught = r.returncode == 1 and f"VIOLATION property={s['PROP']}" in r.stdout
            log.append(f"check {'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode}: " + " ".join(x for x in r.stdout.splitlines() if x.startswith("---"))[:200] + r.stderr[-200:])
        return sid, True, " | ".join(log)
    except Exception as ex:  # noqa: BLE001
        return sid, False, f"{type(ex).__name__}: {ex}"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for sid, ok, msg in ex.map(one, [a for a in sys.argv[1:] if not a.startswith("-")]):
        print(f"{'kept' if ok else 'DROPPED'} {sid}: {msg}", flush=True)
