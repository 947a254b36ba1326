"""Runner of the bounded exhaustive explorations.

A check module (mc/checks/<id>.py) gives
    plan(tier)    -> list of JSON-able units; together they are the whole
                     bounded space, nothing is sampled
    run(unit, ctx)-> explores one unit on the real code and reports to ctx
    ASSUME        -> list of assumptions (evidence)

The runner imports the code under test once, forks workers, merges the
counts, compares violations with known_findings.jsonl and writes evidence.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import lib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
UNIT_LIMIT = 240          # seconds: a unit which needs more does not end
MAX_KEPT = 40             # violations kept per unit


class Stop(Exception):
    """Too many violations in a unit."""


class UnitTimeout(BaseException):
    pass


def h64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def canon(x, nd=9):
    """Canonical, hashable, rounded form of nested data with numbers."""
    import numpy as np
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v, nd)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        return canon(x.tolist(), nd)
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, nd) for v in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(canon(v, nd) for v in x))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(f"{float(x):.{nd}g}")
    return x


class Ctx:
    """Counters and verdicts of one unit."""

    def __init__(self, unit):
        self.unit = unit
        self.states = set()
        self.ntrans = 0
        self.ntraces = 0
        self.viol = []
        self.samples = []
        self.extra = {}

    def state(self, obj):
        self.states.add(h64(obj))

    def trans(self, n=1):
        self.ntrans += n

    def trace(self, n=1):
        self.ntraces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, key, msg, /, **data):
        """key: stable name of what fails (used for known findings)."""
        self.viol.append(dict(key=str(key), msg=str(msg)[:2000], data=data))
        if len(self.viol) >= MAX_KEPT:
            raise Stop

    def eq(self, key, got, want, **data):
        """Exact comparison of discrete answers."""
        self.trans()
        if got != want:
            self.fail(key, f"got {got!r}, expected {want!r}", **data)
            return False
        return True

    def close(self, key, got, want, rtol=1e-9, atol=0.0, **data):
        """Numeric comparison, scaled by the largest magnitude."""
        import numpy as np
        self.trans()
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.fail(key, f"not numeric: {got!r} ({e})", **data)
            return False
        if g.shape != w.shape:
            self.fail(key, f"shape {g.shape}, expected {w.shape}", **data)
            return False
        if g.size == 0:
            return True
        if not np.array_equal(np.isnan(g), np.isnan(w)):
            self.fail(key, f"nan pattern differs: got {g.tolist()}, expected "
                           f"{w.tolist()}", **data)
            return False
        if np.isnan(w).all():
            return True
        scale = float(np.nanmax(np.abs(w)))
        err = float(np.nanmax(np.abs(g - w)))
        if not err <= rtol * scale + atol:
            self.fail(key, f"differs by {err:g} (scale {scale:g}): got "
                           f"{g.tolist()}, expected {w.tolist()}", **data)
            return False
        return True

    def result(self):
        return dict(states=self.states, trans=self.ntrans,
                    traces=self.ntraces, viol=self.viol, unit=self.unit,
                    samples=self.samples, extra=self.extra)


def _alarm(signum, frame):
    raise UnitTimeout


def run_unit(mod, unit):
    ctx = Ctx(unit)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_LIMIT)
    try:
        mod.run(unit, ctx)
    except Stop:
        pass
    except UnitTimeout:
        try:
            ctx.fail("hang", f"no answer within {UNIT_LIMIT} s")
        except Stop:
            pass
    except (Exception, SystemExit) as e:  # the code under test raised where it must not
        try:
            ctx.fail(f"exception:{type(e).__name__}",
                     "".join(traceback.format_exception(e))[-1800:])
        except Stop:
            pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx.result()


_MOD = None


def _own_folder():
    """Each worker has its own scratch folder: files which the code under
    test writes in the working directory are not seen by other workers."""
    path = os.path.join(os.getcwd(), f"worker{os.getpid()}")
    os.makedirs(path, exist_ok=True)
    os.chdir(path)


def _worker(parent, conn, units):
    parent.close()
    _own_folder()
    while True:
        try:
            batch = conn.recv()
        except EOFError:
            batch = None
        if batch is None:
            os._exit(0)
        for x in batch:
            conn.send((x, run_unit(_MOD, units[x])))


def _sweep(ctxm, units, jobs, chunk):
    """Runs all units in worker processes and yields their results. A worker
    which dies (a crash of the interpreter) is replaced and its unit is tried
    once more; a unit which kills its worker twice is a violation."""
    waiting = [list(range(i, min(i + chunk, len(units)))) for i in range(0, len(units), chunk)][::-1]
    workers, tried = {}, set()

    def start():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(a, b, units), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, []]
        feed(a)

    def feed(conn):
        if waiting:
            workers[conn][1] = waiting.pop()
            conn.send(workers[conn][1])
        else:
            try:
                conn.send(None)
            except OSError:
                pass
            workers.pop(conn)[0].join()

    try:
        for _ in range(jobs):
            start()
        while workers:
            for conn in multiprocessing.connection.wait(list(workers)):
                proc, batch = workers[conn]
                try:
                    x, res = conn.recv()
                except (EOFError, OSError):
                    del workers[conn]
                    proc.join()
                    x, rest = batch[0], batch[1:]
                    if rest:
                        waiting.append(rest)
                    if x in tried:
                        ctx = Ctx(units[x])
                        try:
                            ctx.fail("died", f"the process ended with code {proc.exitcode} (twice)")
                        except Stop:
                            pass
                        yield ctx.result()
                    else:
                        tried.add(x)
                        waiting.append([x])
                    if waiting:
                        start()
                    continue
                batch.remove(x)
                yield res
                if not batch:
                    feed(conn)
    finally:
        for proc, _ in workers.values():
            proc.terminate()


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                e = json.loads(line)
                if e.get("status") == "open" and e.get("property") == pid:
                    out.append(e)
    return out


def matches(entry, v, unit):
    if not re.fullmatch(entry["key"], v["key"]):
        return False
    want = entry.get("unit")
    return want is None or all(unit.get(k) == w for k, w in want.items())


def main(mod, pid, tier, jobs=None, replay=None, verbose=False):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="rfmc_")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["RFMC_SCRATCH"] = scratch
    cwd = os.getcwd()
    os.chdir(scratch)   # nothing under test may write into /repo or /verif
    try:
        return _main(mod, pid, tier, jobs, replay, verbose, t0)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def _main(mod, pid, tier, jobs, replay, verbose, t0):
    global _MOD
    _MOD = mod
    if hasattr(mod, "before_import"):
        mod.before_import()
    try:
        lib.rf()
        import_error = None
    except Exception as e:
        import_error = "".join(traceback.format_exception(e))[-1800:]

    if replay:
        with open(replay) as f:
            r = json.load(f)
        res = run_unit(mod, r["unit"])
        for v in res["viol"]:
            print(f"{v['key']}: {v['msg']}")
        print(f"replayed {r['unit']}: {len(res['viol'])} violation(s)")
        return 1 if res["viol"] else 0

    states, trans, traces, nunits = set(), 0, 0, 0
    viols, samples, extra = [], [], {}
    stopped = False
    if import_error:
        viols.append((dict(key="import", msg=import_error, data={}), {}))
        units = []
    else:
        units = mod.plan(tier)
    jobs = jobs or int(os.environ.get("RFMC_JOBS", 0)) or os.cpu_count() or 8
    if units:
        jobs = max(1, min(jobs, len(units)))
        ctxm = mp.get_context("fork")
        chunk = max(1, min(16, len(units) // (jobs * 8)))
        for res in _sweep(ctxm, units, jobs, chunk):
            nunits += 1
            states |= res["states"]
            trans += res["trans"]
            traces += res["traces"]
            viols += [(v, res["unit"]) for v in res["viol"]]
            for k, n in res["extra"].items():
                extra[k] = extra.get(k, 0) + n
            if len(samples) < 5 and res["samples"]:
                samples.append(dict(unit=res["unit"], case=res["samples"][0]))
            if len(viols) > 400 or any(v["key"] in ("hang", "died") for v in res["viol"]):
                stopped = True
                break

    known = load_known(pid)
    new, hit = [], {}
    for v, unit in viols:
        for n, e in enumerate(known):
            if matches(e, v, unit):
                hit[n] = hit.get(n, 0) + 1
                break
        else:
            new.append((v, unit))
    for n, e in enumerate(known):
        if n in hit or not units:
            print(f"KNOWN-FINDING: property={pid} {e['what']}")

    wall = round(time.time() - t0, 2)
    cov = dict(states=len(states), transitions=trans,
               traces_validated_against_impl=traces, units=nunits,
               units_planned=len(units), exhaustive=not stopped,
               bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
               samples=samples[:5] or [dict(unit=u) for u in units[:1]])
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", 1)),
              level="model_checking", coverage=cov,
              assumptions=list(getattr(mod, "ASSUME", [])),
              wall_s=wall, violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{pid} [{tier}]: units={nunits}/{len(units)} states={len(states)} "
          f"transitions={trans} traces={traces} violations={len(new)} "
          f"known={sum(hit.values())} wall={wall}s"
          + "".join(f" {k}={n}" for k, n in sorted(extra.items())))
    if not new:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = {}
    for v, unit in new:
        seen.setdefault(v["key"], (v, unit))
    for n, (key, (v, unit)) in enumerate(list(seen.items())[:5]):
        path = os.path.join(VERIF, "replays", f"{pid}_{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, unit=unit, **v), f, indent=1, default=str)
        print(f"  {key}: {v['msg'][: (1500 if verbose else 400)]}")
        print(f"VIOLATION property={pid} replay={path}")
    return 1
