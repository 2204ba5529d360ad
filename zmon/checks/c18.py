"""C18: the worker manager under hostile timing: event logs of the workers, checked offline."""
import gc
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time
import traceback
import warnings
import multiprocessing as mp
import numpy as np

LEVEL = "exploration"
RULE = ("A case is one schedule: a manager (or several) with its workers, parameters, delays and disturbances, executed in a process of its own; non-trivial "
        "if at least two workers finished jobs in an order different from the order of the parameters, or a fault was injected; distinct by the schedule.")
ASSUMPTIONS = ["Timing is disturbed by delays of the computed function and by stopping and continuing worker processes (SIGSTOP / SIGCONT) at random times.",
               "A call not returning within the time limit (60 s, normally 0.1-2 s) counts as waiting forever; worker processes have 20 s to end after close().",
               "Parameters and results are pickleable; schedules are explored with workers started by fork, spawn and forkserver are run by whole programs."]
LIMIT = 60
HANGS = mp.get_context("fork").Value("i", 0)  # calls which did not return, shared by all processes of the check


# ---------------------------------------------------------------- functions executed by the workers
LOG = None


def note(*what):
    fd = os.open(LOG, os.O_WRONLY | os.O_APPEND)
    try:
        os.write(fd, (json.dumps([os.getpid(), time.monotonic()] + list(what)) + "\n").encode())
    finally:
        os.close(fd)


def job(p):
    """p = (index, delay, payload); the payload decides the result."""
    note("start", p[0]); time.sleep(p[1])
    res = result(p); note("end", p[0])
    return res


def result(p):
    i, d, x = p
    if x == "none":
        return None
    if x == "same":
        return p
    if x == "array":
        return np.full(3, i)
    if x == "big":
        return np.full(60000, float(i))
    if x == "dict":
        return {"i": i, "text": "Started"}
    if x == "text":
        return "Started"
    if isinstance(x, np.ndarray):
        return x*2
    return i*i + 0.5


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex)) and type(a) is type(b):
        return repr(a) == repr(b)  # tells -0.0 from 0.0
    return type(a) is type(b) and a == b


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__("odd"); self.f = lambda: (a, b)


def failing(p):
    i, d, x = p
    note("start", i); time.sleep(d)
    if x == "value": raise ValueError(i)
    if x == "exit": sys.exit(3)
    if x == "odd": raise Odd(1, 2)
    if x == "memory": raise MemoryError
    if x == "interrupt": raise KeyboardInterrupt
    if x == "stop": raise StopIteration
    note("end", i)
    return np.zeros(60000) if x == "big" else i


def plain(x):
    note("start", None)
    return x


# ---------------------------------------------------------------- schedules
def schedule(rng, workers=None, disturb=True):
    workers = workers or int(rng.choice([2, 2, 3, 4, 5, 8]))
    rounds = []
    for _ in range(int(rng.choice([1, 2, 3]))):
        n = int(rng.choice([workers, workers + 1, workers*2, int(rng.integers(workers, 60)), 60 if workers < 6 else 40]))
        style = int(rng.integers(0, 6)); d = np.zeros(n)
        if style == 0: d = rng.random(n)*0.02
        elif style == 1: d[int(rng.integers(0, n))] = 0.3     # one slow job
        elif style == 2: d = np.where(rng.random(n) < 0.2, 0.05, 0.0)
        elif style == 3: d = np.linspace(0.02, 0, n)           # the first ones are the slowest
        elif style == 4: d[0] = 0.4                            # the first worker is busy while others do the rest
        pay = [["", "same", "none", "array", "dict", "text"][int(k)] for k in rng.integers(0, 6, n)]
        if rng.random() < 0.25:
            for k in rng.integers(0, n, 3):
                pay[int(k)] = "big"
        params = [(i, float(d[i]), pay[i]) for i in range(n)]
        rounds.append(dict(params=params, repeat=bool(rng.random() < 0.3)))
    return dict(workers=workers, rounds=rounds, verbose=bool(rng.random() < 0.3), stop=float(rng.choice([0, 0, 0.002, 0.01])) if disturb else 0.0, seed=int(rng.integers(2**31)))


def disturber(period, seed, done, log):
    """Stops and continues worker processes at random times."""
    g = random.Random(seed)
    while not done.is_set():
        pids = [c.pid for c in mp.active_children()]
        if pids:
            pid = g.choice(pids)
            try:
                os.kill(pid, signal.SIGSTOP); time.sleep(g.random()*period*4); log.append(pid)
            except ProcessLookupError:
                pass
            finally:
                try:
                    os.kill(pid, signal.SIGCONT)
                except ProcessLookupError:
                    pass
        time.sleep(g.random()*period)


def ended(pids, limit=20):
    end = time.monotonic() + limit
    while True:
        mp.active_children()  # collects ended ones
        left = [p for p in pids if alive(p)]
        if not left or time.monotonic() > end:
            return left
        time.sleep(0.01)


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def computed(mgr, seen):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = mgr.compute()
    seen |= {c.pid for c in mp.active_children()}
    return r, len(w)


def run_managers(scheds):
    """One or several managers used in turns; returns what was observed."""
    from zernpy.utils.intmproc import DispenserManager
    obs = []; pids = set(); done = threading.Event(); stopped = []; bad = []
    period = max(s["stop"] for s in scheds)
    t = threading.Thread(target=disturber, args=(period, scheds[0]["seed"], done, stopped)) if period else None
    try:
        mgrs = []
        for s in scheds:
            own = {c.pid for c in mp.active_children()}
            mgrs.append(DispenserManager(job, s["rounds"][0]["params"], n_workers=s["workers"], verbose_info=s["verbose"]))
            s["pids"] = {c.pid for c in mp.active_children()} - own; pids |= s["pids"]
        if t:
            t.start()
        note("managers ready")
        turns = [(k, r) for r in range(3) for k in range(len(scheds)) if r < len(scheds[k]["rounds"])]
        last = {k: max(r for kk, r in turns if kk == k) for k in range(len(scheds))}
        for k, r in turns:
            rd = scheds[k]["rounds"][r]
            if r:
                mgrs[k].update_params(rd["params"])
            for rep in range(2 if rd["repeat"] else 1):
                note("compute", k, r); res, _ = computed(mgrs[k], pids); note("computed", k, r)
                obs.append((k, r, rep, [e for e in res] if isinstance(res, list) else res, type(res).__name__))
            if r == last[k]:
                if period:
                    done.set(); t.join(); 
                mgrs[k].close(); left = ended(scheds[k]["pids"])
                if left:
                    bad.append(("alive", k, left))
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    none = mgrs[k].compute(); mgrs[k].close(); mgrs[k].close()
                obs.append((k, "after close", none is None, len(w)))
                others = [kk for kk in last if kk != k and ("closed", kk) not in bad]
                bad.append(("closed", k))
                for kk in others:
                    if any(not alive(p) for p in scheds[kk]["pids"]):
                        bad.append(("others ended", k, kk))
    finally:
        done.set()
    return obs, [b for b in bad if b[0] != "closed"], len(stopped), pids


def run_parallel(scheds):
    """Managers created in the main thread, computing at the same time in threads of their own."""
    from zernpy.utils.intmproc import DispenserManager
    mgrs = [DispenserManager(job, s["rounds"][0]["params"], n_workers=s["workers"]) for s in scheds]
    pids = {c.pid for c in mp.active_children()}; obs = []; errors = []

    def work(k):
        try:
            for r, rd in enumerate(scheds[k]["rounds"]):
                if r:
                    mgrs[k].update_params(rd["params"])
                res = mgrs[k].compute(); obs.append((k, r, 0, list(res) if isinstance(res, list) else res, type(res).__name__))
        except BaseException:  # noqa: B902
            errors.append((k, traceback.format_exc()))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(scheds))]
    for t in ts: t.start()
    for t in ts: t.join()
    for m in mgrs: m.close()
    return obs, errors, ended(pids), pids


def run_failing(params, workers, before, delete):
    from zernpy.utils.intmproc import DispenserManager
    first = [(i, 0.0, "") for i in range(workers*2)]
    mgr = DispenserManager(failing, first if before else params, n_workers=workers); pids = {c.pid for c in mp.active_children()}
    if before:
        r = mgr.compute()
        if r != list(range(workers*2)):
            return "wrong before", None, [], None, 0
        mgr.update_params(params)
    t0 = time.monotonic()
    try:
        r = mgr.compute(); out = ("returned", repr(r)[:200])
    except BaseException as e:  # noqa: B902
        out = ("raised", f"{type(e).__name__}: {e}")
    took = time.monotonic() - t0
    if delete:
        mgr.close(); del mgr; gc.collect(); left = ended(pids); none = True; w = [1]
    else:
        mgr.close(); left = ended(pids)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            none = mgr.compute() is None
        mgr.close()
    return out, took, left, none, len(w)


class Hangs(Exception):
    def __init__(self, stacks):
        super().__init__("no answer"); self.stacks = stacks


def isolated(fn, *args, limit=LIMIT):
    """fn(*args) in a forked process of its own process group, with a log file for the workers."""
    folder = tempfile.mkdtemp(prefix="zmon-c18-"); log = os.path.join(folder, "log"); open(log, "w").close()
    rfd, wfd = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.setsid(); os.close(rfd)
            global LOG
            LOG = log
            dev = os.open(os.devnull, os.O_WRONLY); os.dup2(dev, 1); os.dup2(dev, 2)
            import faulthandler
            faulthandler.register(signal.SIGUSR1, file=open(os.path.join(folder, "stacks"), "w"), all_threads=True)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException as e:  # noqa: B902
                tb = traceback.extract_tb(e.__traceback__)
                data = pickle.dumps(("error", f"{type(e).__name__}: {e}", any("/zernpy/" in f.filename for f in tb), traceback.format_exc()[-1500:]))
            with os.fdopen(wfd, "wb") as f:
                f.write(struct.pack("<q", len(data)) + data)
        finally:
            os._exit(0)
    os.close(wfd); buf = bytearray(); end = time.monotonic() + limit
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([rfd], [], [], left)[0]:
                os.kill(pid, signal.SIGUSR1); time.sleep(0.3); p = os.path.join(folder, "stacks")
                raise Hangs(open(p).read()[-1200:] if os.path.exists(p) else "")
            part = os.read(rfd, 1 << 20)
            if not part:
                break
            buf += part
            if len(buf) >= 8 and len(buf) - 8 >= struct.unpack("<q", buf[:8])[0]:  # no waiting for the end of file: left workers hold the pipe
                break
        with open(log) as f:
            events = [json.loads(x) for x in f if x.strip()]
    finally:
        os.close(rfd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        os.waitpid(pid, 0); shutil.rmtree(folder, ignore_errors=True)
    res = pickle.loads(bytes(buf[8:]))
    return res, events


# ---------------------------------------------------------------- offline checkers
def exactly_once(ctx, events, scheds):
    """Jobs started and ended between each 'compute' and 'computed' of the log are those of the parameters, once each (one manager at a time)."""
    cur = None; seen = []
    order_changed = False; distinct_workers = set()
    for e in events:
        if e[2] == "compute":
            cur = (e[3], e[4]); seen = []
        elif e[2] == "computed":
            want = sorted(p[0] for p in scheds[e[3]]["rounds"][e[4]]["params"])
            starts = sorted(x[3] for x in seen if x[2] == "start"); ends = [x[3] for x in seen if x[2] == "end"]
            ctx.ok(starts == want, "each parameter is computed exactly once", extra=[i for i in set(starts) if starts.count(i) > 1], missing=[i for i in want if i not in starts])
            ctx.ok(sorted(ends) == want, "all results are computed before compute() returns", missing=[i for i in want if i not in ends])
            order_changed |= ends != sorted(ends); distinct_workers |= {x[0] for x in seen}
            by_worker = {}
            for x in seen:
                by_worker.setdefault(x[0], []).append((x[2], x[3]))
            for w, xs in by_worker.items():
                ctx.ok(all(xs[i][0] == "start" and i + 1 < len(xs) and xs[i + 1] == ("end", xs[i][1]) for i in range(0, len(xs), 2)), "a worker computes one parameter after the other", log=xs[:6])
            ctx.event("jobs observed", len(ends)); cur = None; seen = []
        elif e[2] in ("start", "end"):
            if cur is None:
                ctx.ok(False, "nothing is computed outside of compute()", event=e)
            seen.append(e)
    if order_changed:
        ctx.event("schedules with results out of order")
    ctx.event("worker processes observed", len(distinct_workers))
    return order_changed


def check_results(ctx, obs, scheds):
    for o in obs:
        if o[1] == "after close":
            ctx.ok(o[2] and o[3] >= 1, "after close() compute() warns and returns None", returned_none=o[2], warnings=o[3]); continue
        k, r, rep, res, kind = o
        params = scheds[k]["rounds"][r]["params"]; want = [result(p) for p in params]
        if not ctx.ok(kind == "list" and len(res) == len(want), "compute() returns one result per parameter", got=kind, length=len(res) if res is not None else None, want=len(want)):
            continue
        wrong = [i for i in range(len(want)) if not equal(res[i], want[i])]
        ctx.ok(not wrong, "compute() returns f(p) in the order of the parameters", manager=k, round=r, repetition=rep, wrong=wrong[:5],
               got=[str(res[i])[:60] for i in wrong[:3]], want=[str(want[i])[:60] for i in wrong[:3]])


def brief(s):
    return dict(workers=s["workers"], rounds=[(len(r["params"]), r["repeat"], round(sum(p[1] for p in r["params"]), 3)) for r in s["rounds"]], stop=s["stop"], seed=s["seed"])


def go(ctx, fn, *args):
    """Observed result or None if it hangs / fails (reported)."""
    if HANGS.value >= 4:  # reported already: no need to wait for further ones
        return None
    try:
        res, events = isolated(fn, *args, limit=20 if HANGS.value else LIMIT)
    except Hangs as h:
        with HANGS.get_lock():
            HANGS.value += 1
        ctx.ok(False, "no call waits forever", stacks=h.stacks); return None
    if res[0] == "error":
        ctx.ok(False, "no unexpected exception", exception=res[1], trace=res[3]); return None
    ctx.ok(True, "no call waits forever")
    return res[1], events


def single_of(ctx, item):
    label, count = item
    rng = ctx.rng("single", label)
    for k in range(count):
        s = schedule(rng); ctx.case((label, k, str(brief(s))), **brief(s))
        got = go(ctx, run_managers, [s])
        if got:
            (obs, bad, stopped, pids), events = got
            check_results(ctx, obs, [s]); exactly_once(ctx, events, [s])
            ctx.ok(not bad, "close() ends all worker processes", found=bad); ctx.event("workers stopped and continued", stopped)


def single(ctx):
    ctx.pmap(single_of, [(i, ctx.scale(9, 120)) for i in range(6)], workers=6)


def several_of(ctx, item):
    label, count = item
    rng = ctx.rng("several", label)
    for k in range(count):
        ss = [schedule(rng, int(rng.choice([2, 3, 4])), disturb=k % 2 == 0) for _ in range(int(rng.choice([2, 3])))]
        ctx.case((label, k, str([brief(s) for s in ss])), managers=[brief(s) for s in ss])
        got = go(ctx, run_managers, ss)
        if got:
            (obs, bad, stopped, pids), events = got
            check_results(ctx, obs, ss); exactly_once(ctx, events, ss)
            ctx.ok(not [b for b in bad if b[0] == "alive"], "close() ends all worker processes", found=bad)
            ctx.ok(not [b for b in bad if b[0] == "others ended"], "closing one manager leaves the others working", found=bad)
        ss = [schedule(rng, int(rng.choice([2, 3])), disturb=False) for _ in range(int(rng.choice([2, 3])))]
        for j, s in enumerate(ss):  # parameters of the managers are different
            for r in s["rounds"]:
                r["params"] = [(1000*j + p[0], p[1], p[2]) for p in r["params"]]
        ctx.case((label, k, "threads", str([brief(s) for s in ss])), managers=[brief(s) for s in ss])
        got = go(ctx, run_parallel, ss)
        if got:
            (obs, errors, left, pids), events = got
            check_results(ctx, obs, ss); ctx.ok(not errors, "no unexpected exception", errors=errors)
            ctx.ok(not left, "close() ends all worker processes", found=left)
            starts = sorted(e[3] for e in events if e[2] == "start"); want = sorted(p[0] for s in ss for r in s["rounds"] for p in r["params"])
            ctx.ok(starts == want, "each parameter is computed exactly once", extra=len(starts) - len(want))
            ctx.event("managers computing at the same time", len(ss))


def several(ctx):
    ctx.pmap(several_of, [(i, ctx.scale(4, 60)) for i in range(4)], workers=4)


def failing_of(ctx, item):
    label, count = item
    rng = ctx.rng("failing", label)
    for k in range(count):
        workers = int(rng.choice([2, 3, 4])); n = int(rng.choice([workers, workers + 1, 12, 30]))
        at = sorted({int(rng.choice([0, n - 1, workers - 1, int(rng.integers(n))])) for _ in range(int(rng.choice([1, 1, 2])))})
        kind = str(rng.choice(["value", "exit", "odd", "memory", "interrupt", "stop"])); big = rng.random() < 0.3
        params = [(i, float(rng.choice([0, 0.01, 0.05])) if rng.random() < 0.4 else 0.0, kind if i in at else ("big" if big else "")) for i in range(n)]
        before = bool(rng.integers(2)); delete = bool(rng.random() < 0.3)
        ctx.case((label, k, workers, n, tuple(at), kind, before), workers=workers, params=n, at=at, kind=kind, big=big, before=before)
        got = go(ctx, run_failing, params, workers, before, delete)
        if got:
            (out, took, left, none, w), events = got
            ctx.ok(out[0] == "raised", "a worker whose function raises makes compute() raise", got=out)
            ctx.ok(not left, "close() ends all worker processes", after="failure", left=left, kind=kind)
            if not delete:
                ctx.ok(none and w >= 1, "after close() compute() warns and returns None", returned_none=none, warnings=w)
            ctx.event(f"function raised: {kind}")
            starts = [e[3] for e in events if e[2] == "start"]
            if not before:
                ctx.ok(len(starts) == len(set(starts)), "no parameter is computed twice after a failure", starts=starts)


def failing_workers(ctx):
    ctx.pmap(failing_of, [(i, ctx.scale(7, 70)) for i in range(6)], workers=6)


def sleeping(x):
    """Takes the given time."""
    time.sleep(x[0]); return x[1], x[0]


def run_slow(longest):
    """Few jobs take much longer than all others, or all take long."""
    from zernpy.utils.intmproc import DispenserManager
    out = []; params = [(0.0, 1), (longest, 2), (0.01, 3), (0.0, 4), (0.3*longest, 5), (0.02, 6)]; want = [(b, a) for a, b in params]
    m = DispenserManager(sleeping, params, n_workers=3); out.append(m.compute() == want); m.update_params(params[:1]*4); out.append(m.compute() == want[:1]*4)
    m.update_params([(0.3*longest, i) for i in range(3)]); out.append(m.compute() == [(i, 0.3*longest) for i in range(3)]); m.close()
    return out


def slow_of(ctx, longest):
    ctx.case(("slow", longest), longest=longest); got = go(ctx, run_slow, longest)
    if got:
        ctx.ok(all(got[0]), "results of jobs taking long are returned", results=got[0], longest=longest); ctx.event("jobs taking more than 2 s", 5)


def slow(ctx):
    ctx.pmap(slow_of, [8.0, 12.5] if not ctx.thorough else [8.0, 12.5, 21.0, 33.0, 36.0], workers=5)


def run_special(kind):
    from zernpy.utils.intmproc import DispenserManager
    out = []
    if kind == "values":
        for params in (["Started", "", None, 0, False, (), [], {}, "Started"], [np.arange(3)]*4, [1, 1, 1, 1, 1, 1, 2], list("abcdefg"), [np.zeros(200000), 1, 2, np.ones(200000)]):
            m = DispenserManager(plain, list(params), n_workers=2); r = m.compute(); out.append(len(r) == len(params) and all(equal(a, b) for a, b in zip(r, params))); m.close()
    elif kind == "lengths":
        m = DispenserManager(plain, [1, 2, 3], n_workers=3)
        for n in (3, 50, 4, 3, 17, 200, 3):
            p = [x*1.5 for x in range(n)]; m.update_params(p); out.append(m.compute() == p and m.compute() == p)
        m.close()
    elif kind == "held":
        m = DispenserManager(plain, [1, 2, 3, 4], n_workers=2); a = m.compute(); m.update_params([5, 6, 7, 8, 9]); b = m.compute(); m.close()
        out = [a == [1, 2, 3, 4], b == [5, 6, 7, 8, 9]]
    elif kind == "counts":
        warnings.simplefilter("ignore")
        for n in (None, 1, 0, -1, 10**6, 2, os.cpu_count()):
            own = {c.pid for c in mp.active_children()}
            m = DispenserManager(plain, list(range(40)), n_workers=n); pids = {c.pid for c in mp.active_children()} - own; r = m.compute(); m.close()
            out.append(r == list(range(40)) and len(pids) >= 2 and not ended(pids))
    elif kind == "refused creation":  # no manager and no process is left
        for fn, params, n, exc in ((5, [1, 2, 3], 2, TypeError), (None, [1, 2], 2, TypeError), (plain, [], 2, TypeError), (plain, [1], 2, ValueError), (plain, [1, 2, 3], 4, ValueError), (plain, 7, 2, TypeError),
                                   (plain, None, 2, TypeError), ("plain", [1, 2], 2, TypeError), (plain, [1, 2, 3, 4, 5], 6, ValueError)):
            own = {c.pid for c in mp.active_children()}
            try:
                DispenserManager(fn, params, n_workers=n); out.append(False)
            except exc:
                out.append(not ended({c.pid for c in mp.active_children()} - own))
        m = DispenserManager(plain, [1, 2, 3], n_workers=3); out.append(m.compute() == [1, 2, 3]); m.close()
    elif kind == "rejected":  # a refused list of parameters leaves the one before
        for n in (2, 3, 4):
            first = [10*n + x for x in range(n*4)]; m = DispenserManager(plain, first, n_workers=n); out.append(m.compute() == first)
            for bad in ([], [1], list(range(n - 1)), None, 5):
                try:
                    m.update_params(bad); out.append(False)
                except (TypeError, ValueError):
                    out.append(True)
                out.append(m.compute() == first)
            second = [x*0.5 for x in range(n + 3)]; m.update_params(second); out.append(m.compute() == second)
            try:
                m.update_params([7]); out.append(False)
            except (TypeError, ValueError):
                out.append(m.compute() == second)
            m.close()
    elif kind == "many":
        for i in range(15):
            m = DispenserManager(plain, [i, i + 1, i + 2], n_workers=2); out.append(m.compute() == [i, i + 1, i + 2]); m.close() if i % 2 else None; del m
        gc.collect(); out.append(not ended({c.pid for c in mp.active_children()}))
    elif kind == "idle":
        m = DispenserManager(plain, [1, 2, 3], n_workers=2); time.sleep(1.0); out.append(m.compute() == [1, 2, 3]); time.sleep(1.0); out.append(m.compute() == [1, 2, 3]); m.close(); m.close()
    elif kind == "long":
        m = DispenserManager(plain, list(range(3000)), n_workers=4); r = m.compute(); out.append(r == list(range(3000)))
        m.update_params([-x for x in range(1025)]); out.append(m.compute() == [-x for x in range(1025)])
        p = [(None, False, 0, "", (), x)[x % 6] if x > 4000 else x for x in range(9001)]; m.update_params(p); r = m.compute(); out.append(len(r) == 9001 and all(a == b and type(a) is type(b) for a, b in zip(r, p))); m.close()
    elif kind == "verbose":  # the progress is only information, also for numbers of jobs which are not multiples of 100
        keep = sys.stdout; sys.stdout = open(os.devnull, "w")
        try:
            for n, workers in ((99, 2), (101, 3), (199, 2), (201, 2), (256, 4), (333, 2), (450, 3), (777, 2), (1999, 4)):
                m = DispenserManager(plain, [n + x for x in range(n)], n_workers=workers, verbose_info=True); out.append(m.compute() == [n + x for x in range(n)])
                out.append(m.compute() == [n + x for x in range(n)]); m.update_params([0.5*x for x in range(n + 7)]); out.append(m.compute() == [0.5*x for x in range(n + 7)]); m.close()
        finally:
            sys.stdout.close(); sys.stdout = keep
    elif kind == "alike":  # parameters which are equal, but not the same
        pairs = [0.0, -0.0, 0, False, 1, True, 1.0, 1 + 0j, np.float32(1), np.float64(1.0), np.int64(1), "1", b"1", (1,), (1.0,), (True,), [1], 2**53, float(2**53), 2**53 + 1, "a", "a"]
        for workers in (2, 3):
            for params in (pairs, pairs[::-1], [x for x in pairs for _ in range(4)], [0.0, -0.0]*20, [1, True, 1.0]*12):
                m = DispenserManager(described, list(params), n_workers=workers); want = [described(x) for x in params]
                for _ in range(2):
                    out.append(m.compute() == want)
                m.update_params(list(params[::-1])); out.append(m.compute() == want[::-1]); m.close()
        m = DispenserManager(stateful, ["same"]*40, n_workers=2); r = m.compute()  # every parameter is computed, although it was computed before
        for pid in {p for p, _ in r}:
            out.append([n for p, n in r if p == pid] == list(range(1, 1 + sum(p == pid for p, _ in r))))
        m.close()
    elif kind == "large":
        p = [np.full(1 << 20, float(i)) for i in range(9)]
        m = DispenserManager(plain, p, n_workers=3); r = m.compute(); m.close(); out.append(len(r) == 9 and all(equal(a, b) for a, b in zip(r, p)))
    elif kind == "unused":
        m = DispenserManager(plain, [1, 2, 3], n_workers=2); pids = {c.pid for c in mp.active_children()}; m.close(); out.append(not ended(pids))
        m = DispenserManager(plain, [1, 2, 3], n_workers=2); pids = {c.pid for c in mp.active_children()}; del m; gc.collect(); out.append(not ended(pids))
    return out


def described(x):
    return f"{type(x).__name__} {x!r} {np.copysign(1.0, x) if isinstance(x, float) else ''}"


CALLS = [0]


def stateful(x):
    CALLS[0] += 1
    return os.getpid(), CALLS[0]


def stamped(x):
    time.sleep(0.0005)
    return x, time.monotonic()


def unsendable(x):
    return (lambda: x) if x == "bad" else x


def run_lists(seed):
    """The caller changes the lists which were given to the manager or returned by it."""
    from zernpy.utils.intmproc import DispenserManager
    rng = np.random.default_rng(seed); out = []; held = []; params = [int(x) for x in rng.integers(0, 1000, int(rng.integers(6, 15)))]
    m = DispenserManager(stamped, params, n_workers=int(rng.integers(2, 5))); want = list(params)

    def change(data, new):
        kind = int(rng.integers(6))
        if kind == 0: data.append(new)
        elif kind == 1: data.pop(int(rng.integers(len(data)))) if data else None
        elif kind == 2: data.clear()
        elif kind == 3: data[:] = [new]*len(data)
        elif kind == 4: data.reverse()
        else: data.extend([new]*5)
    for step in range(int(rng.integers(2, 6))):
        if rng.random() < 0.5:
            change(params, 5000 + step)
        if rng.random() < 0.4:
            params = [int(x) for x in rng.integers(0, 1000, int(rng.integers(6, 15)))]; m.update_params(params); want = list(params)
            if rng.random() < 0.7:
                change(params, 7000 + step)
        r = m.compute(); out.append(("results", [x[0] for x in r] == want)); kept = list(r); changed = False
        if rng.random() < 0.5:
            change(r, (-1, 0.0)); kept = list(r)
        held.append((r, kept))
        out.append(("earlier lists", all(a == b for a, b in held)))
    m.close(); out.append(("lists after closing", all(a == b for a, b in held)))
    return out


class Interruption(BaseException):
    pass


def run_interrupted(seed):
    """compute() is left by an exception (as KeyboardInterrupt) while it waits, and the manager is used again."""
    from zernpy.utils import intmproc
    import types
    rng = np.random.default_rng(seed); left = [None]; real = time

    def sleep(t):
        if left[0] is not None:
            left[0] -= 1
            if left[0] <= 0:
                left[0] = None; raise Interruption
        real.sleep(t)
    stub = types.ModuleType("time"); stub.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")}); stub.sleep = sleep
    if getattr(intmproc, "time", None) is real:
        intmproc.time = stub
    out = []; params = [int(x) for x in rng.integers(0, 1000, int(rng.integers(20, 60)))]; workers = int(rng.integers(2, 5))
    m = intmproc.DispenserManager(stamped, params, n_workers=workers); own = {c.pid for c in mp.active_children()}; interrupted = 0
    for step in range(4):
        left[0] = int(rng.integers(1, 40)) if rng.random() < 0.7 else None
        try:
            r = m.compute(); out.append([x[0] if isinstance(x, tuple) else x for x in r] == params)
        except Interruption:
            interrupted += 1
        except RuntimeError:
            out.append(interrupted > 0)
        left[0] = None
        if rng.random() < 0.4:
            params = [int(x) for x in rng.integers(0, 1000, int(rng.integers(20, 60)))]; m.update_params(params)
    m.close(); out.append(not ended(own)); return out, interrupted


def run_unsendable(seed):
    from zernpy.utils.intmproc import DispenserManager
    rng = np.random.default_rng(seed); params = [int(x) for x in rng.integers(0, 1000, int(rng.integers(6, 15)))]; kind = ["parameter", "result"][seed % 2]
    where = int(rng.integers(len(params))); m = DispenserManager(unsendable, params, n_workers=int(rng.integers(2, 5))); own = {c.pid for c in mp.active_children()}; out = []
    if rng.random() < 0.5:
        out.append(m.compute() == params)
    bad = list(params); bad[where] = threading.Lock() if kind == "parameter" else "bad"; m.update_params(bad)
    try:
        m.compute(); out.append(False)
    except Exception:  # noqa: B902
        out.append(True)
    m.update_params(params)
    try:
        out.append(m.compute() == params)
    except Exception:  # noqa: B902 - a manager in this state may refuse, but not return wrong results
        out.append(True)
    m.close(); out.append(not ended(own)); return out


def caller_of(ctx, seed):
    ctx.case(("caller", seed))
    got = go(ctx, run_lists, seed)
    if got:
        for what, fine in got[0]:
            ctx.ok(fine, "changes of lists by the caller have no effect on results", what=what)
    got = go(ctx, run_interrupted, seed)
    if got:
        out, n = got[0]; ctx.ok(all(out), "after an interrupted computation the next one returns the right results or raises", results=out); ctx.event("interrupted computations", n)
    got = go(ctx, run_unsendable, seed)
    if got:
        ctx.ok(all(got[0]), "a parameter or result which cannot be sent makes compute() raise", results=got[0]); ctx.event("parameters or results which cannot be sent")


def caller(ctx):
    ctx.pmap(caller_of, [int(x) for x in ctx.rng("caller").integers(0, 2**31, ctx.scale(24, 240))], workers=6)


def special(ctx):
    for kind in ("values", "lengths", "held", "rejected", "refused creation", "counts", "many", "idle", "unused", "long", "large", "verbose", "alike"):
        for rep in range(ctx.scale(1, 5)):
            ctx.case((kind, rep), kind=kind)
            got = go(ctx, run_special, kind)
            if got:
                ctx.ok(len(got[0]) > 0 and all(got[0]), "special parameters, lengths and life cycles give the right results", kind=kind, results=got[0])


def psf_user(ctx):
    """The user of the manager in the library: workers of PSF objects end with deinitialize_workers and with the object."""
    for kind in ("deinitialize", "twice", "deleted"):
        ctx.case(("psf", kind))
        got = go(ctx, run_psf, kind)
        if got:
            ctx.ok(all(got[0]), "workers of a PSF object end when released", kind=kind, results=got[0])


def run_psf(kind):
    from zernpy import ZernPol, ZernPSF
    psf = ZernPSF(ZernPol(osa=4)); psf.initialize_parallel_workers(); pids = {c.pid for c in mp.active_children()}; out = [len(pids) >= 2]
    if kind == "twice":
        psf.initialize_parallel_workers(); out.append({c.pid for c in mp.active_children()} == pids)
    if kind == "deleted":
        del psf; gc.collect()
    else:
        psf.deinitialize_workers()
    out.append(not ended(pids))
    return out


def run_killed(workers, when, count):
    """Worker processes are killed (as by the system when memory runs out) while they wait or while they compute."""
    from zernpy.utils.intmproc import DispenserManager
    slow = [(i, 0.25, "") for i in range(workers*2)]; fast = [(i, 0.0, "") for i in range(workers*2)]
    m = DispenserManager(job, slow if when == "busy" else fast, n_workers=workers); children = list(mp.active_children()); pids = {c.pid for c in children}
    if when in ("idle", "later"):
        if m.compute() != [result(p) for p in fast]:
            return "wrong before", [], True, 0
    victims = sorted(pids)[:count]
    if when in ("idle", "later", "unused"):
        time.sleep(0.05)  # the workers wait for the next parameter
        for v in victims:
            os.kill(v, signal.SIGKILL)
        for c in children:
            if c.pid in victims:
                c.join()
    if when == "busy":
        def kill():
            end = time.monotonic() + 20; busy = []
            while time.monotonic() < end and not all(v in busy for v in victims):
                with open(LOG) as f:
                    busy = [e[0] for e in map(json.loads, f.read().splitlines()) if e[2] == "start"]
                time.sleep(0.005)
            for v in victims:
                os.kill(v, signal.SIGKILL)
        t = threading.Thread(target=kill); t.start()
    if when == "later":
        out = ("raised", "not computed")
    else:
        try:
            out = ("returned", repr(m.compute())[:100])
        except BaseException as e:  # noqa: B902
            out = ("raised", f"{type(e).__name__}: {e}")
    if when == "busy":
        t.join()
    m.close(); left = ended(pids)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        none = m.compute() is None
    return out, left, none, len(w)


def killed_of(ctx, item):
    workers, when, count, rep = item
    ctx.case(item, workers=workers, when=when, killed=count)
    got = go(ctx, run_killed, workers, when, count)
    if got:
        (out, left, none, w), events = got
        ctx.ok(out[0] == "raised", "compute() raises if a worker was killed", got=out, when=when)
        ctx.ok(not left, "close() ends all worker processes", after="kill", left=left, when=when)
        ctx.ok(none and w >= 1, "after close() compute() warns and returns None", returned_none=none, warnings=w)
        ctx.event(f"workers killed: {when}", count)


def killed(ctx):
    items = [(w, when, c, rep) for w in (2, 3) for when in ("busy", "idle", "later", "unused") for c in (1, w) for rep in range(ctx.scale(1, 8))]
    ctx.pmap(killed_of, items)


EXITS = {
    "left": "m = D(f, [1, 2, 3], n_workers=2); assert m.compute() == [2, 3, 4]",
    "closed": "m = D(f, [1, 2, 3], n_workers=2); assert m.compute() == [2, 3, 4]; m.close()",
    "never computed": "m = D(f, [1, 2, 3], n_workers=2)",
    "two left": "m = D(f, [1, 2, 3], n_workers=2); k = D(f, [1, 2, 3, 4], n_workers=3); assert k.compute() == [2, 3, 4, 5]; m.close()",
    "failed and closed": "m = D(g, [np.ones(300000)]*6, n_workers=2)\ntry: m.compute()\nexcept RuntimeError: pass\nm.close()",
    "failed and left": "m = D(g, [np.ones(300000)]*6, n_workers=2)\ntry: m.compute()\nexcept RuntimeError: pass",
    "failed, not caught": "m = D(g, [1, 2, 3], n_workers=2); m.compute()",
    "PSF left": "p = Z(P(osa=4)); p.initialize_parallel_workers()",
    "in a thread": "import threading\nm = D(f, list(range(9)), n_workers=2); out = []\nt = threading.Thread(target=lambda: out.append(m.compute())); t.start(); t.join(); assert out == [list(range(1, 10))]",
}


def leaving_of(ctx, item):
    import subprocess
    name, rep = item
    code = f"""import sys, os
import numpy as np
from zernpy import ZernPSF as Z, ZernPol as P
from zernpy.utils.intmproc import DispenserManager as D
import multiprocessing as mp
def f(x): return x + 1
def g(x): raise ValueError
def report():
    sys.stdout.write(" ".join(str(c.pid) for c in mp.active_children()) + "\\n"); sys.stdout.flush()
first = D.__init__
def init(self, *a, **k):
    first(self, *a, **k); report()
D.__init__ = init
{EXITS[name]}
"""
    ctx.case((name, rep), how=name)
    p = subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=LIMIT); hang = False
    except subprocess.TimeoutExpired:
        hang = True; out = err = ""
    pids = [int(x) for x in out.split()]
    left = ended(pids, 10)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if hang:
        p.communicate()
    ctx.ok(not hang, "the interpreter exits although workers are left", how=name)
    if not hang:
        ctx.ok(len(pids) >= 2 and not left, "no worker process outlives the interpreter", how=name, left=left, seen=len(pids), stderr=err[-600:])
        ctx.ok((p.returncode == 0) == (name != "failed, not caught"), "the exit code tells whether an exception was not caught", how=name, code=p.returncode, stderr=err[-600:])


def leaving(ctx):
    ctx.pmap(leaving_of, [(n, r) for n in EXITS for r in range(ctx.scale(1, 6))])


STARTED = {  # programs for the other ways of starting processes; each prints one line of JSON
    "results": """
out = []
for workers, counts, top in CASES:
    m = D(jobs.job, [(i, 0.0) for i in range(counts[0])], n_workers=workers); pids.update(c.pid for c in mp.active_children())
    for r, n in enumerate(counts):
        params = [(i, [0.03, 0.0, 0.01][i % 3] if top else 0.0) for i in range(n)]
        if r or top: m.update_params(params)
        jobs.note("compute", r); out.append([n, m.compute()])
    m.close()
""",
    "callables": """
out = []
for f in (functools.partial(jobs.power, k=3), jobs.Scaled(7), abs, jobs.Scaled(2).apply):
    m = D(f, list(range(-4, 9)), n_workers=3); pids.update(c.pid for c in mp.active_children()); out.append(m.compute() == [f(x) for x in range(-4, 9)]); m.close()
""",
    "failing": """
m = D(jobs.failing, list(range(6)), n_workers=2); pids.update(c.pid for c in mp.active_children())
try: m.compute(); out = "returned"
except Exception as e: out = "raised"
m.close()
""",
    "not importable": """
def local(x): return x
try: m = D(local, list(range(6)), n_workers=2); out = "created"; m.compute()
except Exception as e: out = "raised"
pids.update(c.pid for c in mp.active_children())
""",
    "second not startable": """
try: m = D(jobs.Once(marker), list(range(6)), n_workers=3); out = "created"; m.compute()
except Exception as e: out = "raised"
pids.update(c.pid for c in mp.active_children())
""",
    "lambda": """
try: m = D(lambda x: x, list(range(6)), n_workers=2); out = "created"; m.compute()
except Exception as e: out = "raised"
""",
    "left": """
m = D(jobs.power, list(range(6)), n_workers=2); pids.update(c.pid for c in mp.active_children()); out = m.compute()
""",
    "PSF": """
from zernpy import ZernPol, ZernPSF
warnings.simplefilter("ignore"); out = []
for way in (True, False):
    p = ZernPSF(ZernPol(m=-1, n=3)); p.set_physical_props(0.8, 0.5, 0.12, 0.1); p.set_calculation_props(3, 20, 37)
    if way: p.initialize_parallel_workers(); pids.update(c.pid for c in mp.active_children())
    keep = sys.stdout; sys.stdout = io.StringIO(); K = p.get_kernel_parallel(); sys.stdout = keep
    if way: p.deinitialize_workers()
    out.append(K.tolist())
""",
}
JOBS = """import os, json, time
LOG = {log!r}
def note(*what):
    fd = os.open(LOG, os.O_WRONLY | os.O_APPEND)
    try: os.write(fd, (json.dumps([os.getpid(), time.monotonic()] + list(what)) + "\\n").encode())
    finally: os.close(fd)
def job(p):
    note("start", p[0]); time.sleep(p[1]); note("end", p[0])
    return p[0]*p[0] + 1
def failing(x):
    raise ValueError(x)
def power(x, k=2):
    return x**k
class Scaled:
    def __init__(self, k): self.k = k
    def __call__(self, x): return self.k*x
    def apply(self, x): return self.k + x
class Once:  # can be restored by the first started process only
    def __init__(self, marker): self.marker = marker
    def __call__(self, x): return x
    def __setstate__(self, d):
        self.__dict__.update(d); os.close(os.open(self.marker, os.O_CREAT | os.O_EXCL))
"""


def started_of(ctx, item):
    """Workers started by spawn and forkserver (the only ways on other systems)."""
    import subprocess
    from ..core import SRC
    method, name, rep = item; rng = ctx.rng("started", item); folder = tempfile.mkdtemp(prefix="zmon-c18-")
    cases = [(int(rng.integers(2, 5)), [int(x) for x in rng.integers(5, 25, 2)], bool(rng.integers(2))) for _ in range(2)]
    log = os.path.join(folder, "log"); open(log, "w").close()
    with open(os.path.join(folder, "jobs.py"), "w") as f:
        f.write(JOBS.replace("{log!r}", repr(log)))
    body = "\n".join("    " + x for x in STARTED[name].strip().splitlines())
    with open(os.path.join(folder, "main.py"), "w") as f:
        f.write(f"""import sys, os, json, io, functools, warnings
sys.path.insert(0, {str(SRC)!r})
import multiprocessing as mp
import jobs
from zernpy.utils.intmproc import DispenserManager as D
CASES = {cases!r}; marker = {os.path.join(folder, "marker")!r}
if __name__ == "__main__":
    mp.set_start_method({method!r}); pids = set()
{body}
    print(json.dumps([out, sorted(pids)]), flush=True)
""")
    ctx.case((method, name, rep, str(cases)), method=method, what=name, cases=cases); ctx.event(f"programs with {method}")
    d = dict(method=method, what=name)
    p = subprocess.Popen([sys.executable, "-W", "ignore", "main.py"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, cwd=folder)
    try:
        out, err = p.communicate(timeout=LIMIT*2); hang = False
    except subprocess.TimeoutExpired:
        hang = True; out = err = ""
    try:
        lines = out.strip().splitlines(); res, pids = json.loads(lines[-1]) if lines else (None, []); left = ended(pids, 10)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    if hang:
        p.communicate()
    with open(log) as f:
        events = [json.loads(x) for x in f if x.strip()]
    shutil.rmtree(folder, ignore_errors=True)
    if not ctx.ok(not hang, "managers don't wait forever, whatever way workers are started", **d):
        return
    if not ctx.ok(p.returncode == 0 and lines, "managers work whatever way workers are started", code=p.returncode, stderr=err[-800:], **d):
        return
    ctx.ok(not left, "no worker process outlives the interpreter", left=left, **d)
    if name == "results":
        want = [n for w, counts, top in cases for n in counts]
        ctx.ok([n for n, r in res] == want and all(r == [i*i + 1 for i in range(n)] for n, r in res), "results are those of the parameters, in their order", got=res, **d)
        batches = []
        for e in sorted(events, key=lambda e: e[1]):
            if e[2] == "compute":
                batches.append([])
            elif e[2] == "start" and batches:
                batches[-1].append(e[3])
        ctx.ok([sorted(b) for b in batches] == [list(range(n)) for n in want], "each parameter is computed exactly once", got=batches, **d)
        ctx.event("jobs of workers started otherwise", len(events)//2)
    elif name == "callables":
        ctx.ok(res == [True]*4, "results are those of the parameters, in their order", got=res, **d)
    elif name in ("failing", "not importable", "second not startable", "lambda"):
        ctx.ok(res == "raised", "workers which fail or cannot start make the manager raise", got=res, **d)
        if name in ("not importable", "second not startable"):
            ctx.ok(not pids, "no worker is left by a manager which couldn't be created", left=pids, **d)
    elif name == "left":
        ctx.ok(res == [x*x for x in range(6)] and len(pids) >= 2, "results are those of the parameters, in their order", got=res, **d)
    else:
        A, B = np.array(res[0]), np.array(res[1])
        ctx.ok(A.shape == B.shape == (3, 3) and np.abs(A - B).max() <= 1e-9 and len(pids) == 4, "kernels of workers equal those without", workers=len(pids), **d)


def started(ctx):
    ctx.pmap(started_of, [(m, n, r) for n in STARTED for m in ("spawn", "forkserver") for r in range(ctx.scale(1, 5))], workers=6)


SECTIONS = [("single manager", single), ("several managers", several), ("failing functions", failing_workers), ("special", special), ("slow jobs", slow), ("caller", caller), ("PSF workers", psf_user), ("killed workers", killed), ("interpreter exit", leaving), ("start methods", started)]
