"""Bounded-exhaustive exploration driver.

A check module enumerates a finite space of *cases* (JSON-able descriptors) and runs each one on the
real ModSSC code against an oracle.  The driver strides the enumeration over worker processes, merges
what was measured, writes the evidence file and the replay artefact of the first violations.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
TREE = Path(os.environ.get("MODSSC_TREE", "/repo")).resolve()
MAX_VIOLATIONS = 6


class Violation(Exception):
    """An observed breach of the property. `key` identifies the failing input class."""

    def __init__(self, msg: str, key: str | None = None):
        super().__init__(msg)
        self.key = key or msg


class CaseTimeout(BaseException):
    pass


def digest(obj) -> str:
    h = hashlib.blake2b(digest_size=12)
    _feed(h, obj)
    return h.hexdigest()


def _feed(h, o):
    import numpy as np

    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        h.update(f"{type(o).__name__}:{o!r};".encode("utf-8", "surrogatepass"))
    elif isinstance(o, dict):
        h.update(b"d{")
        for k in sorted(o, key=lambda x: (str(type(x)), str(x))):
            _feed(h, k)
            _feed(h, o[k])
        h.update(b"}")
    elif isinstance(o, (list, tuple)):
        h.update(b"l[")
        for v in o:
            _feed(h, v)
        h.update(b"]")
    elif isinstance(o, (set, frozenset)):
        _feed(h, sorted(digest(v) for v in o))
    elif isinstance(o, np.ndarray):
        h.update(f"a{o.dtype.kind}{o.dtype.itemsize}{o.shape}".encode())
        if o.dtype == object:
            _feed(h, o.tolist())
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, np.generic):
        _feed(h, o.item())
    elif hasattr(o, "detach") and hasattr(o, "numpy"):
        _feed(h, o.detach().cpu().numpy())
    else:
        h.update(f"r{type(o).__name__}:{o!r};".encode())


class Run:
    """What a case reports while it executes."""

    def __init__(self, scratch: Path, tier: str, seed: int):
        self.scratch_root = scratch
        self.tier = tier
        self.seed = seed
        self.states: set[str] = set()
        self.outcomes: set[str] = set()
        self.transitions = 0
        self.checks = 0
        self.samples: list = []
        self.case = None
        self._n = 0
        self.extra: dict[str, int] = {}
        self.soft: list[tuple[str, str]] = []

    # -- measuring -------------------------------------------------------
    def step(self, n: int = 1):
        self.transitions += n

    def state(self, *parts):
        self.states.add(digest(parts))

    def outcome(self, *parts):
        self.outcomes.add(digest(parts))

    def count(self, name: str, n: int = 1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- judging ---------------------------------------------------------
    def check(self, cond, msg, key: str | None = None):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def soft_check(self, cond, msg, key: str):
        """Record and carry on (used where one case holds several independent facts)."""
        self.checks += 1
        if not cond:
            self.soft.append((msg() if callable(msg) else msg, key))

    def fresh_dir(self, name: str = "d") -> Path:
        self._n += 1
        p = self.scratch_root / f"{name}{self._n}"
        if p.exists():
            shutil.rmtree(p)
        p.mkdir(parents=True)
        return p


def _from_impl(tb) -> bool:
    """Does the traceback pass through ModSSC code?"""
    t = str(TREE)
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(t + "/src/") or fn.startswith(t + "/bench/"):
            return True
        tb = tb.tb_next
    return False


def _alarm(_s, _f):
    raise CaseTimeout()


def _purge_dir(p: Path):
    for c in list(p.iterdir()):
        if c.is_dir() and not c.is_symlink():
            shutil.rmtree(c, ignore_errors=True)
        else:
            try:
                c.unlink()
            except OSError:
                pass


def run_one(mod, case, R: Run):
    """Run one case; returns list of (msg, key) violations; raises on a harness error."""
    out = []
    R.case = case
    R.soft = []
    limit = int(getattr(mod, "CASE_TIMEOUT", 150))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod.run_case(case, R)
    except Violation as v:
        out.append((str(v), v.key))
    except CaseTimeout:
        out.append((f"no result within {limit}s (does not terminate)", "timeout"))
    except Exception as e:  # noqa: BLE001
        if _from_impl(e.__traceback__):
            tail = "".join(traceback.format_exception(e))[-1500:]
            out.append((f"unexpected {type(e).__name__}: {e}\n{tail}", f"raises:{type(e).__name__}"))
        elif isinstance(e, (MemoryError, OSError)):
            raise
        else:
            # The oracle is total on every result the property allows: one it cannot evaluate is a breach.
            tail = "".join(traceback.format_exception(e))[-1500:]
            out.append((f"the observed result is outside what the property allows ({type(e).__name__}: {e})\n{tail}", f"oracle:{type(e).__name__}"))
    finally:
        signal.alarm(0)
    out.extend(R.soft)
    R.soft = []
    R._n = 0
    _purge_dir(R.scratch_root)
    return out


def _fast_tmp():
    """Memory-backed scratch when there is room (fsync is free there), the default otherwise."""
    try:
        st = os.statvfs("/dev/shm")
        if os.access("/dev/shm", os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
            return "/dev/shm"
    except OSError:
        pass
    return None


def _worker(mod, tier, seed, idx, n, conn, deadline):
    scratch = Path(tempfile.mkdtemp(prefix=f"modssc-mc-{mod.PID}-", dir=_fast_tmp()))
    os.environ["TMPDIR"] = str(scratch)
    tempfile.tempdir = None
    for v in ("MODSSC_CACHE_ROOT", "MODSSC_CACHE_DIR", "MODSSC_SPLIT_CACHE_DIR", "MODSSC_PREPROCESS_CACHE_DIR",
              "MODSSC_GRAPH_CACHE_DIR", "MODSSC_GRAPH_VIEWS_CACHE_DIR", "XDG_CACHE_HOME"):
        os.environ[v] = str(scratch / "env" / v.lower())
    work = scratch / "w"
    work.mkdir()
    os.chdir(work)
    res = {"error": None, "cases": 0, "viol": [], "capped": False}
    R = Run(work, tier, seed)
    per_key: dict = {}
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != idx:
                continue
            if time.time() > deadline:
                res["capped"] = True
                break
            v = run_one(mod, case, R)
            res["cases"] += 1
            if len(R.samples) < 2:
                R.samples.append(case)
            for msg, key in v:
                per_key[key] = per_key.get(key, 0) + 1
                if per_key[key] <= 20:      # enough to report the first; a known finding must not cut the run short
                    res["viol"].append({"case": case, "msg": msg, "key": key, "i": i})
            if len(res["viol"]) >= 200:
                break
    except BaseException as e:  # noqa: BLE001
        res["error"] = "".join(traceback.format_exception(e))
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(states=R.states, outcomes=R.outcomes, transitions=R.transitions, checks=R.checks,
               samples=R.samples, extra=R.extra)
    conn.send(res)
    conn.close()


def load_known(pid: str) -> dict[str, str]:
    """known_findings.txt lines:  known: property=<id> key=<key> :: <what fails>"""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line:
                head, _, what = line.partition(" :: ")
                out[head.split("key=", 1)[1].strip()] = what
    return out


def drive(mod, tier: str, seed: int, jobs: int | None = None) -> int:
    t0 = time.time()
    jobs = jobs or getattr(mod, "JOBS", None) or min(8, os.cpu_count() or 1)
    budget = float(getattr(mod, "BUDGET", {"quick": 700, "thorough": 20000})[tier])
    deadline = t0 + budget
    if hasattr(mod, "setup"):
        try:
            mod.setup(tier)
        except Exception as e:  # noqa: BLE001
            tail = "".join(traceback.format_exception(e))[-2500:]
            print(tail)
            if _from_impl(e.__traceback__) or isinstance(e, ImportError):
                return report_violation(mod.PID, {"case": "setup", "msg": tail, "key": "setup"})
            return 3
    ctx = mp.get_context("fork")
    procs = []
    sys.stdout.flush()
    for idx in range(jobs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(mod, tier, seed, idx, jobs, b, deadline))
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    died = False
    hard = deadline + 120
    for p, a in procs:
        try:
            if a.poll(max(1.0, hard - time.time())):
                results.append(a.recv())
            else:
                died = True
        except EOFError:
            died = True
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
    states, outcomes, samples, viol, extra = set(), set(), [], [], {}
    transitions = checks = cases = 0
    capped = False
    for r in results:
        states |= r["states"]
        outcomes |= r["outcomes"]
        transitions += r["transitions"]
        checks += r["checks"]
        cases += r["cases"]
        capped |= r["capped"]
        samples += r["samples"]
        viol += r["viol"]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        if r["error"]:
            print("HARNESS ERROR\n" + r["error"], file=sys.stderr)
            died = True
    viol.sort(key=lambda v: v["i"])
    known = load_known(mod.PID)
    hit_known = sorted({v["key"] for v in viol if v["key"] in known})
    new = [v for v in viol if v["key"] not in known]
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"samples": samples[:6], "exhaustive": not capped and not died, "cases": cases,
           "oracle_comparisons": checks, "distinct_outcomes": len(outcomes), "bounds": mod.BOUNDS[tier]}
    cov.update(extra)
    if level == "model_checking":
        cov.update(states=len(states), transitions=transitions, traces_validated_against_impl=cases)
        del cov["cases"]
    else:
        cov.update(evaluations=transitions, distinct_nontrivial=len(states), rule=mod.RULE)
    ev = {"property": mod.PID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{mod.PID}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for k in hit_known:
        print(f"KNOWN-FINDING: property={mod.PID} {known[k]}")
    print(f"[{mod.PID}] tier={tier} cases={cases} states={len(states)} transitions={transitions} "
          f"oracle_comparisons={checks} outcomes={len(outcomes)} capped={capped} wall={time.time()-t0:.1f}s {extra}")
    if new:
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            report_violation(mod.PID, v, n=len(seen))
            if len(seen) >= MAX_VIOLATIONS:
                break
        return 1
    if died:
        print("harness error: a worker gave no result", file=sys.stderr)
        return 3
    if cases == 0 or len(states) < 2:
        print("harness error: vacuous exploration", file=sys.stderr)
        return 3
    return 0


def report_violation(pid: str, v: dict, n: int = 1) -> int:
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    f = d / f"{pid}-{n}.json"
    f.write_text(json.dumps({"property": pid, **v}, indent=1, default=str) + "\n")
    print(f"--- {v['msg']}\n    case: {json.dumps(v['case'], default=str)[:600]}\n    key: {v['key']}")
    print(f"VIOLATION property={pid} replay={f}")
    sys.stdout.flush()
    return 1


def replay(mod, path: str, tier: str, seed: int) -> int:
    d = json.loads(Path(path).read_text())
    if hasattr(mod, "setup"):
        mod.setup(tier)
    scratch = Path(tempfile.mkdtemp(prefix="modssc-replay-"))
    try:
        R = Run(scratch, tier, seed)
        v = run_one(mod, d["case"], R)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for msg, key in v:
        print(msg)
        print(f"VIOLATION property={mod.PID} replay={path}")
    return 1 if v else 0
