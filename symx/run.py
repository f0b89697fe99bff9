"""Run the jobs of a check: explore paths symbolically, replay on the real code.

The master forks two kinds of workers before anything is patched: symbolic
workers (numpy/pandas carry Syms) and replay workers (nothing patched).  Each
unit of work runs in a fresh fork of its worker, so that no state of the code
under test survives from one unit to the next.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing.connection as mpc
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


# ------------------------------------------------------------------- plumbing
def _send(fd, o):
    b = pickle.dumps(o)
    b = struct.pack("!Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _read_exact(fd, n, deadline=None):
    out = b""
    while len(out) < n:
        if deadline is not None:
            left = deadline - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
        c = os.read(fd, min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd, deadline=None):
    n, = struct.unpack("!Q", _read_exact(fd, 8, deadline))
    return pickle.loads(_read_exact(fd, n, deadline))


def leash(parent):
    """end with the parent, whatever ends it."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, int(signal.SIGKILL))      # PR_SET_PDEATHSIG
    except Exception:
        pass
    if os.getppid() != parent:
        os._exit(0)


def forked(fn, timeout):
    """fn() in a forked child; ("ok", value) | ("timeout",) | ("died", text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        leash(me)
        code = 0
        try:
            os.close(r)
            try:
                v = ("ok", fn())
            except BaseException as e:
                v = ("died", "".join(traceback.format_exception(e))[-2000:])
            _send(w, v)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        out = _recv(r, time.time() + timeout)
    except TimeoutError:
        out = ("timeout",)
    except EOFError:
        out = ("died", "no result")
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return out


def spawn(loop):
    a, b = socket.socketpair()
    sys.stdout.flush()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        leash(me)
        try:
            a.close()
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            loop(b.fileno())
        except BaseException:
            pass
        os._exit(0)
    b.close()
    return pid, a


def trace_functions(fn):
    """-> (result of fn, names of the trikit functions that ran)."""
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code
            if "/trikit/" in f.co_filename and "/tests/" not in f.co_filename:
                seen.add("%s:%s" % (os.path.basename(f.co_filename), f.co_qualname))
    sys.setprofile(prof)
    try:
        return fn(), seen
    finally:
        sys.setprofile(None)


def sym_unit(job, prefixes, slice_s, opts, first):
    """explore a subtree for about slice_s seconds."""
    from . import api
    stack = list(prefixes)
    done, fns = [], set()
    t0 = time.time()
    while stack and (time.time() - t0 < slice_s or not done):
        p = stack.pop()
        if first:
            r, fns = trace_functions(lambda: api.run_path(job["fn"], job["params"], p, opts))
            first = False
        else:
            r = api.run_path(job["fn"], job["params"], p, opts)
        stack.extend(r.pop("open"))
        done.append(r)
    return {"paths": done, "left": stack, "fns": sorted(fns)}


def sym_loop(jobs, opts):
    def loop(fd):
        from . import shims
        shims.install()
        while True:
            try:
                u = _recv(fd)
            except EOFError:
                return
            j, prefixes, first = u
            job = jobs[j]
            o = dict(opts, **job.get("opts", {}))
            out = forked(lambda: sym_unit(job, prefixes, o["slice_s"], o, first), o["unit_timeout"])
            _send(fd, out)
    return loop


def replay_loop(jobs, opts):
    def loop(fd):
        from . import api
        while True:
            try:
                j, w, as_int = _recv(fd)
            except EOFError:
                return
            job = jobs[j]
            out = forked(lambda: api.run_conc(job["fn"], job["params"], w, as_int), opts["replay_timeout"])
            _send(fd, out)
    return loop


# --------------------------------------------------------------------- master
class Result:
    pass


def close(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 1e-5 * (abs(a) + abs(b)) + 1e-7


def run_check(mod, tier, seed, budget, nsym=7, nrep=3, verbose=False):
    jobs = mod.jobs(tier)
    for n, j in enumerate(jobs):
        j.setdefault("params", {})
        j["n"] = n
    opts = {"seed": seed, "timeout_ms": 1500, "ob_timeout_ms": 8000, "slice_s": 2.0,
            "unit_timeout": min(300, budget), "replay_timeout": 120}
    t0 = time.time()
    S = [spawn(sym_loop(jobs, opts)) for _ in range(nsym)]
    R = [spawn(replay_loop(jobs, opts)) for _ in range(nrep)]
    pids = [p for p, _ in S + R]
    todo = collections.deque((j["n"], [[]], True) for j in jobs)
    reps = collections.deque()
    stat = [dict(name=j["name"], paths=0, ok=0, limit=0, exception=0, infeasible=0, forks=0, decisions=0,
                 obligations=0, discharged=0, inconclusive=0, queries=0, solver_s=0.0, unknown=0,
                 unexplored=0, replays=0, agree=0, lost=0) for j in jobs]
    fns, samples, mism, notes, incon = set(), [], [], collections.Counter(), collections.Counter()
    viol, unconf, assumed = [], [], set()
    busy = {}
    free_s, free_r = [s for _, s in S], [s for _, s in R]
    hard = t0 + budget
    nviol_stop, grace, last = 3, 45, hard + 150     # one violation settles the answer; others found soon after are shown too
    seen_rep = set()

    def confirm(j, w, sf, why):
        key = (j, json.dumps(w, sort_keys=True), why == "int")
        if key in seen_rep:
            return
        seen_rep.add(key)
        reps.append((j, w, sf, why))

    try:
        while True:
            now = time.time()
            if viol and last > hard:
                hard = last = min(hard, now + grace)
            over = now > hard or len(viol) >= nviol_stop
            if over:
                while todo:
                    j, pr, _ = todo.popleft()
                    stat[j]["unexplored"] += len(pr)
            while todo and free_s:
                u = todo.popleft()
                s = free_s.pop()
                _send(s.fileno(), u)
                busy[s] = ("s", u)
            while reps and free_r:
                # counterexamples first
                k = next((i for i, r in enumerate(reps) if r[3] == "cex"), 0)
                reps.rotate(-k)
                u = reps.popleft()
                reps.rotate(k)
                s = free_r.pop()
                _send(s.fileno(), (u[0], u[1], u[3] == "int"))
                busy[s] = ("r", u)
            if not busy:
                if not todo and not reps:
                    break
                continue
            if len(viol) >= nviol_stop or now > last:
                for kind, u in busy.values():
                    if kind == "s":
                        stat[u[0]]["unexplored"] += len(u[1])
                break
            for s in mpc.wait(list(busy), timeout=1.0):
                kind, u = busy.pop(s)
                try:
                    out = _recv(s.fileno(), time.time() + 60)
                except (EOFError, TimeoutError, ConnectionError):
                    out = ("died", "worker ended")
                    s = None
                if kind == "s":
                    if s is not None:
                        free_s.append(s)
                    j = u[0]
                    st = stat[j]
                    if out[0] != "ok":
                        st["lost"] += 1
                        notes["%s: unit %s %s" % (jobs[j]["name"], out[0], out[1][-300:] if len(out) > 1 else "")] += 1
                        continue
                    v = out[1]
                    fns.update(v["fns"])
                    left = v["left"]
                    if left:
                        # share the subtree
                        m = max(1, min(len(left), nsym))
                        for c in range(m):
                            part = left[c::m]
                            if part:
                                todo.append((j, part, False))
                    for p in v["paths"]:
                        st["paths"] += 1
                        st[p["status"]] += 1
                        st["forks"] += p["forks"]
                        st["decisions"] += p["decisions"]
                        for k in ("queries", "solver_s", "unknown"):
                            st[k] += p["stats"][k]
                        if p["status"] == "infeasible":
                            continue
                        assumed.update(p["notes"])
                        st["obligations"] += p["obligations"]
                        st["discharged"] += p["discharged"]
                        st["inconclusive"] += len(p["inconclusive"])
                        for x in p["inconclusive"][:3]:
                            incon["%s: %s" % (jobs[j]["name"], x)] += 1
                        if p["status"] != "ok":
                            notes["%s: %s: %s" % (jobs[j]["name"], p["status"], p["exc"])] += 1
                        for f in p["fails"][:4]:
                            if f[3] is not None:
                                confirm(j, f[3], f[:3], "cex")
                            else:
                                # no concrete input of this path is known: not decided
                                st["inconclusive"] += 1
                                incon["%s: %s (path without a model)" % (jobs[j]["name"], f[:3])] += 1
                        for w in p["witnesses"]:
                            confirm(j, w, p.get("sym_values"), "path" if w is p["witnesses"][0] else "more")
                        if p["witness"] is not None and jobs[j].get("ints", True):
                            w = {k: (x if k.startswith("pick_") else float(max(1, round(x)) if x > 0 else round(x)))
                                 for k, x in p["witness"].items()}
                            confirm(j, w, None, "int")
                        if len(samples) < 6 and p["witness"] and (not samples or samples[-1]["job"] != jobs[j]["name"]):
                            samples.append({"job": jobs[j]["name"], "path": "".join(map(str, p["path"]))[:80],
                                            "inputs": dict(list(p["witness"].items())[:14]),
                                            "obligations": p["obligations"], "discharged": p["discharged"]})
                    continue
                if s is not None:
                    free_r.append(s)
                j, w, sv, why = u
                st = stat[j]
                if out[0] != "ok":
                    bad = {"fails": [["the call", out[0], "returns"]], "exc": str(out), "skip": False}
                    if out[0] == "timeout":
                        notes["replay timeout " + jobs[j]["name"]] += 1
                        bad = None
                    v = bad
                else:
                    v = out[1]
                if v is None or v["skip"]:
                    continue
                st["replays"] += 1
                if v["fails"] or v["exc"]:
                    viol.append({"job": jobs[j]["name"], "inputs": w, "as_int": why == "int", "fails": v["fails"],
                                 "exc": v["exc"], "symbolic": sv if why == "cex" else None, "found_by": why})
                elif why == "cex":
                    unconf.append([jobs[j]["name"], sv])
                elif why == "path" and sv is not None:
                    labels, vals = sv
                    bad = [(l, a, b) for l, a, b in zip(labels, vals, v["values"]) if not close(a, b)]
                    if labels != v["labels"]:
                        bad.insert(0, ("labels", str(labels)[:80], str(v["labels"])[:80]))
                    if bad:
                        mism.append([jobs[j]["name"], [list(map(str, x)) for x in bad[:3]], w])
                    else:
                        st["agree"] += 1
    finally:
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)       # the worker and what it runs
            except OSError:
                pass
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        for p in pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
    r = Result()
    r.jobs, r.stat, r.fns, r.samples, r.mism = jobs, stat, sorted(fns), samples, mism
    r.notes, r.incon, r.viol, r.unconf = notes, incon, viol, unconf
    r.assumed = sorted(assumed)
    r.wall = time.time() - t0
    return r
