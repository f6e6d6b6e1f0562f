"""Path exploration of harnesses over a pool of worker processes."""
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from collections import deque
from fractions import Fraction

from . import env

NWORKERS = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4)


# --------------------------------------------------------------------------
# concrete execution (replay, validation)
# --------------------------------------------------------------------------
def plain(v):
    if isinstance(v, Fraction):
        return float(v)
    return v


def to_json_val(v):
    if isinstance(v, int):
        return v
    v = Fraction(v)
    return v.numerator if v.denominator == 1 else f'{v.numerator}/{v.denominator}'


def from_json_val(v):
    if isinstance(v, str):
        return Fraction(v)
    return v


def run_concrete(h, params, values):
    """Run a harness on the unpatched code. Returns (outcome, message, obs)."""
    from .harness import Ctx, CheckFailed, AssumeFailed
    ctx = Ctx(params, False, values)
    try:
        h.fn(ctx)
        return 'ok', '', ctx
    except CheckFailed as e:
        return 'violation', str(e), ctx
    except AssumeFailed:
        return 'assume', '', ctx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb)
                      if '/pdf2docx/' in f.filename), '')
        own = tb[-1].filename.startswith(env.ROOT)
        kind = 'harness-error' if own and not where else 'violation'
        return kind, f'unexpected {type(e).__name__}: {e} {where}'.strip(), ctx


# --------------------------------------------------------------------------
# symbolic execution of one path
# --------------------------------------------------------------------------
class Runner:
    """Executes paths of one harness inside one process."""

    def __init__(self, h, params, tier):
        from . import core
        self.core = core
        self.h, self.params = h, params
        self.eng = core.Engine()
        self.covered = set()
        self.samples = []
        self.rng = random.Random(1)

    def run(self, prefix, model):
        """Execute one path. Returns (status, detail, pending)."""
        from .harness import Ctx
        core, eng = self.core, self.eng
        core.set_engine(eng)
        eng.start(prefix, model)
        ctx = Ctx(self.params, True)
        status, detail = 'done', None
        try:
            self.h.fn(ctx)
        except core.PathAbort:
            status = 'infeasible'
        except core.Violation as v:
            status, detail = 'violation', (v.msg, v.models)
        except core.Inconclusive as e:
            status, detail = 'inconclusive', str(e)
        except core.EngineError as e:
            where = _where(e)
            eng.cut(f'unsupported: {e} {where}')
            status = 'cut'
        except RecursionError as e:
            status, detail = 'error', 'RecursionError ' + _where(e)
        except Exception as e:
            msg = f'unexpected {type(e).__name__}: {e} {_where(e)}'
            models, res = eng.violation_models(None)
            if models:
                status, detail = 'exception', (msg, models)
            elif res == 'unknown':
                status, detail = 'inconclusive', msg
            else:
                status = 'infeasible'
        if status == 'done':
            eng.n_paths += 1
            self.covered |= ctx.covered
            if eng.path_checks and (eng.n_paths <= 3 or self.rng.random() < 0.02):
                self.sample(ctx)
        return status, detail, eng.pending

    def sample(self, ctx):
        if len(self.samples) > 12:
            return
        models, _ = self.eng.violation_models(None, 1)
        if models:
            m = models[0]
            full = dict(m)
            obs = []
            for o in ctx.obs:
                obs.append(self.value(o, full))
            self.samples.append((m, obs, sorted(ctx.covered, key=str)))

    def value(self, o, vals):
        core = self.core
        if isinstance(o, core.SymNum):
            n = self.eng.p_eval(o.n, vals)
            if o.d is not None:
                n = Fraction(n) / self.eng.p_eval(o.d, vals)
            return n if o.isint else float(n)
        if isinstance(o, core.SymBool):
            return o.eval(self.eng, vals, {})
        if isinstance(o, (list, tuple)):
            return [self.value(x, vals) for x in o]
        if isinstance(o, dict):
            return {k: self.value(x, vals) for k, x in o.items()}
        if isinstance(o, (int, float, bool)) or o is None:
            return o
        return str(o)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    if os.environ.get('SYMX_TRACE'):
        traceback.print_exception(e, file=open(os.environ['SYMX_TRACE'], 'a'))
    w = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb if '/pdf2docx/' in f.filename]
    return 'at ' + w[-1] if w else 'at ' + f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'


FUNCS = set()


def _monitor():
    """Record which functions of the code under test are executed (cheaply)."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, 'symx')
    except ValueError:
        return
    pre = os.path.join(env.REPO, 'pdf2docx') + os.sep

    def start(code, off):
        if code.co_filename.startswith(pre):
            FUNCS.add(f'{code.co_filename[len(pre):]}:{code.co_qualname}')
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def _worker(conn, harnesses, tier):
    sys.setrecursionlimit(5000)
    try:
        import signal
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        out = open(os.devnull, 'w')
        sys.stdout = out
        from . import install
        install.install()
        _monitor()
        runners = {}
        while True:
            job = conn.recv()
            if job is None:
                break
            hi, tasks, slice_s = job
            if hi not in runners:
                h = harnesses[hi]
                runners[hi] = Runner(h, h.params[tier], tier)
            r = runners[hi]
            e = r.eng
            before = _stats(e)
            cuts0 = dict(e.cuts)
            t0 = time.perf_counter()
            stack = list(tasks)
            found = []
            while stack:
                prefix, model = stack.pop()
                st, detail, pend = r.run(prefix, model)
                stack.extend(pend)
                if st in ('violation', 'inconclusive', 'error', 'exception'):
                    found.append((st, detail))
                    if sum(1 for s, _ in found if s != 'inconclusive') >= 3:
                        break
                if time.perf_counter() - t0 > slice_s:
                    break
            after = _stats(e)
            conn.send(dict(h=hi, left=stack, found=found,
                           stats={k: after[k] - before[k] for k in after},
                           cuts={k: v - cuts0.get(k, 0) for k, v in e.cuts.items()},
                           covered=r.covered, funcs=set(FUNCS), samples=r.samples,
                           busy=time.perf_counter() - t0))
            r.samples = []
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException:
        conn.send(dict(crash=traceback.format_exc()))


def _stats(e):
    return dict(paths=e.n_paths, infeasible=e.n_infeasible, branches=e.n_branches,
                forks=e.n_forks, queries=e.n_queries, t_solver=e.t_solver,
                unknown=e.n_unknown, checks=e.n_checks, check_queries=e.n_check_queries)


class Result:
    def __init__(self):
        self.stats = {}
        self.cuts = {}
        self.covered = set()
        self.samples = []
        self.found = []
        self.complete = False
        self.busy = 0.0


def explore(harnesses, tier, budget, workers=None, stop_on=6):
    """Explore all harnesses; returns {index: Result}, functions executed."""
    workers = workers or NWORKERS
    ctx = mp.get_context('fork')
    res = {i: Result() for i in range(len(harnesses))}
    queues = {i: deque([([], None)]) for i in range(len(harnesses))}
    funcs = set()
    procs, conns, busy = [], [], {}
    for _ in range(workers):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, harnesses, tier), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    idle = list(range(workers))
    t0 = time.perf_counter()
    crash = None
    dead = set()
    active = {i: 0 for i in queues}
    wlast = {}
    try:
        while True:
            # hand out work
            pending = [i for i in queues if queues[i] and i not in dead]
            while idle and pending:
                # fewest active first
                hi = min(pending, key=lambda i: (active[i], -len(queues[i])))
                q = queues[hi]
                w = None
                for c in idle:
                    if wlast.get(c) == hi:
                        w = c
                        break
                if w is None:
                    w = idle[0]
                idle.remove(w)
                total = sum(len(queues[i]) for i in queues)
                n = max(1, min(len(q) // (2 * workers), 50))
                tasks = [q.popleft() for _ in range(min(n, len(q)))]
                slice_s = 0.15 if total < 4 * workers else 2.0
                conns[w].send((hi, tasks, slice_s))
                busy[w] = hi
                wlast[w] = hi
                active[hi] += 1
                pending = [i for i in queues if queues[i] and i not in dead]
            if not busy:
                break
            left = budget - (time.perf_counter() - t0)
            if left <= 0:
                break
            ready = mp.connection.wait([conns[w] for w in busy], timeout=min(left, 5.0))
            for c in ready:
                w = conns.index(c)
                try:
                    m = c.recv()
                except EOFError:
                    crash = 'worker died (out of memory?)'
                    busy.pop(w)
                    continue
                hi = busy.pop(w)
                active[hi] -= 1
                idle.append(w)
                if 'crash' in m:
                    crash = m['crash']
                    continue
                r = res[hi]
                for k, v in m['stats'].items():
                    r.stats[k] = r.stats.get(k, 0) + v
                for k, v in m['cuts'].items():
                    if v:
                        r.cuts[k] = r.cuts.get(k, 0) + v
                r.covered |= m['covered']
                funcs |= m['funcs']
                r.samples.extend(m['samples'])
                r.busy += m['busy']
                queues[hi].extendleft(reversed(m['left'])) if False else queues[hi].extend(m['left'])
                r.found.extend(m['found'])
                hard = sum(1 for st, _ in r.found if st != 'inconclusive')
                if hard >= stop_on or len(r.found) - hard >= 60:
                    dead.add(hi)
            if crash:
                break
        for i in res:
            res[i].complete = not queues[i] and active[i] == 0 and i not in dead
    finally:
        for c in conns:
            try:
                c.send(None)
            except Exception:
                pass
        for p in procs:
            p.join(0.2)
            if p.is_alive():
                p.terminate()
    return res, funcs, crash
