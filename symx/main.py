"""Command line: run a check, replay counterexamples, write evidence."""
import argparse
import contextlib
import importlib
import io
import json
import os
import subprocess
import sys
import time

from . import env
from . import explore as X

BUDGET = {'quick': 780.0, 'thorough': 1800.0}


def load(prop):
    return importlib.import_module(f'checks.{prop.lower()}')


def known(prop):
    """Known findings of the property: lines ending in [harness: message]."""
    out = []
    p = os.path.join(env.ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:') and f'property={prop} ' in line:
                out.append(line)
    return out


def replay_file(path, quiet=False):
    """Run the counterexample on the unpatched code in this process."""
    d = json.load(open(path))
    env.load_target()
    mod = load(d['property'])
    h = next(x for x in mod.HARNESSES if x.name == d['harness'])
    vals = {k: X.from_json_val(v) for k, v in d['values'].items()}
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        outcome, msg, ctx = X.run_concrete(h, d['params'], vals)
    return outcome, msg, ctx


def replay_many(path):
    """Concrete runs for validation: file holds a list of cases."""
    env.load_target()
    d = json.load(open(path))
    mod = load(d['property'])
    hs = {h.name: h for h in mod.HARNESSES}
    out = []
    for c in d['cases']:
        vals = {k: X.from_json_val(v) for k, v in c['values'].items()}
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            outcome, msg, ctx = X.run_concrete(hs[c['harness']], c['params'], vals)
        ok = outcome == 'ok'
        diff = ''
        if ok and c['obs'] is not None:
            ok, diff = same(norm(ctx.obs), c['obs'])
        out.append([outcome, msg, ok, diff])
    print('RESULT ' + json.dumps(out))
    return 0


def norm(o):
    if isinstance(o, bool) or o is None or isinstance(o, (int, float)):
        return o
    if isinstance(o, (list, tuple)):
        return [norm(x) for x in o]
    if isinstance(o, dict):
        return {k: norm(v) for k, v in o.items()}
    return str(o)


def same(a, b, path=''):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        # rounding to 0.1 pt of a tie may go either way
        return (abs(a - b) <= 0.1001 if isinstance(a, float) or isinstance(b, float) else a == b, f'{path}: {a} != {b}')
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False, f'{path}: length {len(a)} != {len(b)}: {a} {b}'
        for i, (x, y) in enumerate(zip(a, b)):
            ok, d = same(x, y, f'{path}[{i}]')
            if not ok:
                return ok, d
        return True, ''
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False, f'{path}: keys'
        for k in a:
            ok, d = same(a[k], b[k], f'{path}.{k}')
            if not ok:
                return ok, d
        return True, ''
    return a == b, f'{path}: {a!r} != {b!r}'


def spawn(args, timeout=300):
    r = subprocess.run([sys.executable, os.path.join(env.ROOT, 'run.py')] + args,
                       capture_output=True, text=True, timeout=timeout, cwd=env.ROOT)
    return r


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--validate')
    ap.add_argument('--prof', type=int, help='explore N paths in this process and list where they fork')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--budget', type=float)
    a = ap.parse_args(argv)
    if a.replay:
        outcome, msg, ctx = replay_file(a.replay)
        print(f'{outcome}: {msg}')
        return 1 if outcome == 'violation' else 0
    if a.selftest:
        from . import selftest
        return selftest.run()
    if a.validate:
        return replay_many(a.validate)
    if a.prof:
        return prof(a)
    return run_check(a.prop, a.tier, a)


def run_check(prop, tier, a):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    env.load_target()
    mod = load(prop)
    hs = [h for h in mod.HARNESSES if not a.only or h.name in a.only.split(',')]
    hs = [h for h in hs if tier == 'thorough' or h.params['quick'] is not False]
    budget = a.budget or getattr(mod, 'BUDGET', BUDGET)[tier]
    res, funcs, crash = X.explore(hs, tier, budget, a.jobs)
    os.makedirs(os.path.join(env.ROOT, 'replays'), exist_ok=True)

    rc, violations, notes, spurious = 0, [], [], []
    if crash:
        print('ERROR: ' + crash)
        rc = 2
    for i, h in enumerate(hs):
        r = res[i]
        seen = set()
        for st, detail in r.found:
            if st in ('violation', 'exception'):
                msg, models = detail
                ok = None
                for k, m in enumerate(models):
                    f = os.path.join(env.ROOT, 'replays', f'{prop}-{h.name}-{len(seen)}-{k}.json')
                    with open(f, 'w') as fp:
                        json.dump(dict(property=prop, harness=h.name, params=h.params[tier], message=msg,
                                       values={n: X.to_json_val(v) for n, v in m.items()}), fp, indent=1)
                    p = spawn(['--replay', f])
                    if p.returncode == 1:
                        ok = (f, p.stdout.strip())
                        break
                    os.remove(f)
                if ok:
                    if msg.split(' at ')[0] not in seen:
                        seen.add(msg.split(' at ')[0])
                        violations.append((h.name, msg, ok))
                elif st == 'exception':
                    r.cuts[msg] = r.cuts.get(msg, 0) + 1
                else:
                    spurious.append((h.name, msg, models[:1]))
                    k = f'counterexample does not reproduce on the real code: {msg} {models[:1]}'
                    r.cuts[k] = r.cuts.get(k, 0) + 1
            elif st == 'inconclusive':
                r.cuts[detail] = r.cuts.get(detail, 0) + 1
            else:
                notes.append(f'{h.name}: {st}: {detail}')

    kn = known(prop)
    unlisted = []
    for v in violations:
        if not any(line.endswith(f'[{v[0]}: {v[1]}]') for line in kn):
            unlisted.append(v)
    # vacuity and completeness
    for i, h in enumerate(hs):
        r = res[i]
        if unlisted or any(v[0] == h.name for v in violations):
            continue
        if not r.complete:
            k = f'exploration not finished within {budget:.0f} s'
            r.cuts[k] = r.cuts.get(k, 0) + 1
        elif not r.stats.get('paths') or not r.stats.get('checks'):
            if not r.cuts:
                notes.append(f'{h.name}: vacuous: no feasible path reached an assertion')
        elif set(h.covers) - r.covered and not r.cuts:
            notes.append(f'{h.name}: situations never reached: {sorted(map(str, set(h.covers) - r.covered))}')
    validated, mism = validate(prop, hs, res, tier)

    for line in kn:
        print(line)
    for name, msg, (f, out) in unlisted:
        print(f'{name}: {msg}')
        print(f'  replayed on the unpatched code: {out}')
        print(f'VIOLATION property={prop} replay={f}')
    if unlisted:
        rc = 1
    else:
        for n in notes:
            print('ERROR: ' + n)
            rc = 2
    for i, h in enumerate(hs):
        for c, n in sorted(res[i].cuts.items(), key=lambda t: -t[1])[:5]:
            print(f'INCOMPLETE: {h.name}: {c} (x{n})')
    for m in mism[:5]:
        print('NOTE: symbolic and concrete run differ: ' + m)
    wall = time.time() - t0
    evidence(prop, tier, seed, mod, hs, res, funcs, validated, mism, len(unlisted), wall, budget)
    tot = {k: sum(r.stats.get(k, 0) for r in res.values()) for k in ('paths', 'queries', 'checks', 'forks')}
    print(f'{prop} {tier}: {len(hs)} harnesses, {tot["paths"]} paths, {tot["queries"]} solver queries, '
          f'{tot["checks"]} assertions, {validated} traces validated, {wall:.1f} s, exit {rc}')
    return rc


def validate(prop, hs, res, tier):
    cases = []
    for i, h in enumerate(hs):
        for m, obs, cov in res[i].samples[:16 if tier == 'quick' else 60]:
            cases.append(dict(harness=h.name, params=h.params[tier], obs=norm_fr(obs),
                              values={n: X.to_json_val(v) for n, v in m.items()}))
    if not cases:
        return 0, []
    f = os.path.join(env.ROOT, 'replays', f'{prop}-validate.json')
    with open(f, 'w') as fp:
        json.dump(dict(property=prop, cases=cases), fp)
    p = spawn(['--validate', f])
    line = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
    if not line:
        return 0, ['validation run failed: ' + p.stderr[-300:]]
    out = json.loads(line[-1][7:])
    mism = [f'{c["harness"]} {c["values"]}: {o[0]} {o[1]} {o[3]}' for c, o in zip(cases, out) if not o[2]]
    if not os.environ.get('VERIF_KEEP'):
        os.remove(f)
    return sum(1 for o in out if o[2]), mism


def norm_fr(o):
    from fractions import Fraction
    if isinstance(o, Fraction):
        return float(o)
    if isinstance(o, list):
        return [norm_fr(x) for x in o]
    if isinstance(o, dict):
        return {k: norm_fr(v) for k, v in o.items()}
    return o


def evidence(prop, tier, seed, mod, hs, res, funcs, validated, mism, nviol, wall, budget):
    import z3
    per = []
    for i, h in enumerate(hs):
        r = res[i]
        per.append(dict(harness=h.name, bounds=h.bounds, parameters={k: str(v) for k, v in h.params[tier].items()},
                        stubs=list(h.stubs), complete=r.complete and not r.cuts,
                        paths=r.stats.get('paths', 0), infeasible_paths=r.stats.get('infeasible', 0),
                        forks=r.stats.get('forks', 0), solver_queries=r.stats.get('queries', 0),
                        assertions=r.stats.get('checks', 0), assertion_queries=r.stats.get('check_queries', 0),
                        unknown=r.stats.get('unknown', 0), solver_time_s=round(r.stats.get('t_solver', 0), 2),
                        reached=sorted(map(str, r.covered)), incomplete=r.cuts))
    samples = []
    for i, h in enumerate(hs):
        for m, obs, cov in res[i].samples[:1]:
            samples.append(dict(harness=h.name, inputs={k: str(v) for k, v in m.items()}, observed=str(obs)[:400]))
    tot = lambda k: sum(r.stats.get(k, 0) for r in res.values())
    cov = dict(states=tot('paths'), transitions=tot('branches'),
               traces_validated_against_impl=validated,
               samples=samples or [dict(note='no completed path was sampled')],
               explanation='dynamic symbolic execution of the real code: states = feasible execution paths (each '
                           'stands for all input values satisfying its path condition), transitions = branch '
                           'decisions taken by the solver; each assertion is decided by the solver for all values '
                           'of its path',
               exhaustive=all(r.complete and not r.cuts for r in res.values()),
               functions_encoded=sorted(funcs), harnesses=per, solver='z3 ' + z3.get_version_string(),
               solver_queries=tot('queries'), solver_time_s=round(tot('t_solver'), 2),
               assertions_decided=tot('checks'), validation_mismatches=mism[:10])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(env.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(env.ROOT, 'evidence', f'{prop}.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)


def prof(a):
    from . import install
    install.install()
    mod = load(a.prop)
    import io
    import random
    for h in mod.HARNESSES:
        if a.only and h.name not in a.only.split(','):
            continue
        r = X.Runner(h, h.params[a.tier], a.tier)
        r.eng.prof = {}
        stack, n, st = [([], None)], 0, {}
        t0 = time.time()
        rnd = random.Random(1)
        while stack and n < a.prof:
            t = stack.pop(rnd.randrange(len(stack)))
            with contextlib.redirect_stdout(io.StringIO()):
                s, d, pend = r.run(*t)
            n += 1
            st[s] = st.get(s, 0) + 1
            if d and st[s] < 4:
                print(s, str(d)[:600])
            stack += pend
        print(h.name, n, 'runs', st, f'{time.time() - t0:.1f} s', 'left', len(stack), 'cuts', r.eng.cuts,
              'queries', r.eng.n_queries, f'solver {r.eng.t_solver:.1f} s', 'checks', r.eng.n_checks)
        for k, v in sorted(r.eng.prof.items(), key=lambda t: -t[1])[:25]:
            print(f'{v:6d} {k}')
    return 0
