"""File-system fault injection at the granularity of Python's file-system audit events.

Every open-for-write, rename, remove, mkdir, rmdir, link, truncate under a watched root is an *event*.
A run can be killed just before event k (the process really dies: no finally/except clause runs), and the
files that the immediately preceding event opened for writing, or that were then already open for writing
(also under the name a rename just gave them), can be left torn (any prefix of what the process had
written before the next event is a state a kill can leave).  A run can also be given an
OSError at event k (disk full, permission): then the code's own clean-up does run.
"""
from __future__ import annotations

import errno
import os
import pickle
import shutil
import signal
import sys
from pathlib import Path

_active = None
_installed = False
_src = None  # source of the rename being reported
_WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_MUT = {"os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.chmod"}


def _abspath(p, dir_fd=None):
    try:
        p = os.fsdecode(p)
    except TypeError:
        return None
    if not os.path.isabs(p):
        if isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
            except OSError:
                return None
        else:
            p = os.path.join(os.getcwd(), p)
    return os.path.normpath(p)


def _norm(ev, args):
    """-> (kind, path) for a mutating event, ("read", path) for an open for reading, or None"""
    if ev == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return None
        p = _abspath(path)
        if p is None:
            return None
        if isinstance(flags, int) and flags & _WR or isinstance(mode, str) and any(c in mode for c in "wax+"):
            return ("write", p)
        return ("read", p)
    if ev in _MUT:
        if ev in ("os.rename", "os.link"):
            return (ev[3:], _abspath(args[1], args[3] if len(args) > 3 else None))
        if ev == "os.symlink":
            return ("symlink", _abspath(args[1], args[2] if len(args) > 2 else None))
        fd = None
        if ev in ("os.remove", "os.rmdir"):
            fd = args[1] if len(args) > 1 else None
        elif ev == "os.mkdir":
            fd = args[2] if len(args) > 2 else None
        if isinstance(args[0], int):
            return None
        return (ev[3:], _abspath(args[0], fd))
    return None


def _hook(ev, args):
    st = _active
    if st is None:
        return
    if ev == "fcntl.flock":
        try:
            st("flock", os.readlink(f"/proc/self/fd/{args[0]}").removesuffix(" (deleted)"))
        except OSError:
            pass
        return
    if ev != "open" and ev not in _MUT:
        return
    n = _norm(ev, args)
    if n is not None and n[1] is not None:
        global _src
        _src = _abspath(args[0], args[2] if len(args) > 2 else None) if ev == "os.rename" else None
        st(n[0], n[1])


def install():
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True


class activate:
    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        global _active
        install()
        self.prev = _active
        _active = self.fn
        return self

    def __exit__(self, *a):
        global _active
        _active = self.prev


def child(fn, *, timeout: int = 120):
    """Run fn() in a forked child. -> ("ok", value) | ("exc", type name, message, from_impl) | ("died", status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                out = ("ok", fn())
            except Exception as e:  # noqa: BLE001
                mro = [c.__name__ for c in type(e).__mro__]
                out = ("exc", type(e).__name__, str(e)[:500], mro)
            global _active
            _active = None
            blob = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        except BaseException:  # noqa: BLE001
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    _, status = os.waitpid(pid, 0)
    if status == 0 and blob:
        return pickle.loads(blob)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        return ("hang", status)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99:
        raise RuntimeError("harness child failed")
    return ("died", status)


def _open_for_writing(root: str):
    """Files under root this process holds open for writing."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
            if not p.startswith(root + os.sep):
                continue
            with open(f"/proc/self/fdinfo/{fd}", encoding="ascii") as f:
                flags = next(int(ln.split()[1], 8) for ln in f if ln.startswith("flags:"))
        except OSError:
            continue
        if flags & os.O_ACCMODE:
            out.append(p)
    return out


def record(root: Path, op, *, timeout: int = 120, inflight: dict | None = None):
    """Run op in a child, returning (result, [events]); `inflight` receives, per event, the files a kill
    before the next event can leave torn."""
    root = str(Path(root).resolve())

    def body():
        evs = []
        fly = {}

        def on(kind, path):
            if kind != "read" and (path == root or path.startswith(root + os.sep)):
                moved = _src
                if inflight is not None:
                    files = {path if kind == "rename" and p == moved else p for p in _open_for_writing(root)}
                    if kind == "write":
                        files.add(path)
                    fly[len(evs)] = sorted(os.path.relpath(p, root) for p in files)
                evs.append((kind, os.path.relpath(path, root)))
        with activate(on):
            try:
                v = ("ok", op())
            except Exception as e:  # noqa: BLE001
                v = ("exc", type(e).__name__, str(e)[:500], [c.__name__ for c in type(e).__mro__])
        return v, evs, fly
    out = child(body, timeout=timeout)
    if out[0] != "ok":
        return out, []
    if inflight is not None:
        inflight.update(out[1][2])
    return out[1][:2]


def crash_at(root: Path, op, k: int, *, timeout: int = 120):
    """Run op in a child killed just before its k-th event (0-based) under root."""
    root = str(Path(root).resolve())

    def body():
        n = 0

        def on(kind, path):
            nonlocal n
            if kind != "read" and (path == root or path.startswith(root + os.sep)):
                if n == k:
                    os._exit(77)
                n += 1
        with activate(on):
            return op()
    return child(body, timeout=timeout)


def fail_at(root: Path, op, k: int, err: int = errno.ENOSPC, *, timeout: int = 120):
    """Run op in a child whose k-th event raises OSError(err) (once)."""
    root = str(Path(root).resolve())

    def body():
        n = 0

        def on(kind, path):
            nonlocal n
            if kind != "read" and (path == root or path.startswith(root + os.sep)):
                n += 1
                if n == k + 1:
                    raise OSError(err, os.strerror(err), path)
        with activate(on):
            return op()
    return child(body, timeout=timeout)


def snapshot(src: Path, dst: Path):
    if dst.exists():
        shutil.rmtree(dst)
    if src.exists():
        shutil.copytree(src, dst, symlinks=True)
    else:
        dst.mkdir(parents=True)


TORN = (None, "empty", "half", "less1")


def tear(path: Path, how: str) -> bool:
    """Leave only a prefix of the file. False if that is no new state."""
    try:
        size = path.stat().st_size
    except OSError:
        return False
    if not path.is_file() or size == 0:
        return False
    n = {"empty": 0, "half": size // 2, "less1": size - 1}[how]
    if how == "half" and n in (0, size - 1):
        return False
    if how == "less1" and n == 0:
        return False
    with open(path, "r+b") as f:
        f.truncate(n)
    return True


def crash_states(base: Path, work: Path, op, *, torn=TORN, timeout: int = 120):
    """Yield (k, how, event) after putting `work` into every state a kill during op can leave.

    `base` is the directory content before op; op works on `work`.
    """
    snapshot(base, work)
    fly = {}
    out, evs = record(work, op, timeout=timeout, inflight=fly)
    if out[0] == "hang":
        yield (-1, "hang", None)
        return
    for k in range(len(evs) + 1):
        for how in torn:
            for f in [None] if how is None else fly.get(k - 1, ()):
                snapshot(base, work)
                crash_at(work, op, k, timeout=timeout)
                if how is not None and not tear(Path(work) / f, how):
                    continue
                yield (k, how if f is None else f"{how} {f}" if f != evs[k - 1][1] else how, evs[k] if k < len(evs) else ("end", ""))


def tree(root: Path):
    """Canonical content of a directory."""
    out = {}
    root = Path(root)
    if not root.exists():
        return out
    for p in sorted(root.rglob("*")):
        rel = str(p.relative_to(root))
        out[rel] = p.read_bytes() if p.is_file() else None
    return out
