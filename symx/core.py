"""Symbolic-execution core.

The real pdf2docx code is executed with proxy values.  A number is a polynomial
with exact rational coefficients over input variables (and derived terms such as
min/max/floor), a truth value is a comparison of such polynomials.  Each time the
code needs the truth of one (``if``, ``and``, ``while``, sort comparison ...) the
SMT solver decides which outcomes are feasible under the current path condition;
when both are, the execution is forked (the function is re-executed from the
start, following the recorded decisions).  All paths are explored, hence all
values within the stated input bounds are covered.
"""
import math
import time
from fractions import Fraction

import z3

NEG, ZERO, POS = 1, 2, 4
LT, LE, EQ, GE, GT, NE, ANY = NEG, NEG | ZERO, ZERO, ZERO | POS, POS, NEG | POS, 7


class PathAbort(BaseException):
    """Path condition became infeasible (or path is deliberately ended)."""


class EngineError(BaseException):
    """Internal limitation: never swallowed by the code under test."""


class Violation(BaseException):
    """Raised to unwind after a property violation candidate."""
    def __init__(self, msg, models=None):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.models = models or []


class Inconclusive(BaseException):
    """The solver could not decide a property assertion."""


ENG = None      # current engine


def set_engine(e):
    global ENG
    ENG = e


# --------------------------------------------------------------------------
# polynomials: dict {monomial(tuple of var ids): coefficient}
# --------------------------------------------------------------------------
def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


_QCACHE = {}


def to_q(x):
    t = type(x)
    if t is int or t is Fraction:
        return x
    if t is bool:
        return int(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        r = _QCACHE.get(x)
        if r is None:
            if len(_QCACHE) > 100000:
                _QCACHE.clear()
            # a float constant stands for the real number it is written as
            r = _QCACHE[x] = int(x) if x.is_integer() else Fraction(repr(float(x)))
        return r
    try:
        import numpy
        if isinstance(x, numpy.generic):
            return to_q(x.item())
    except ImportError:
        pass
    raise TypeError(type(x))


def p_add(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if sb == 1 else -c
        else:
            v = v + c if sb == 1 else v - c
            if v == 0:
                del r[m]
            else:
                r[m] = _norm(v)
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def p_mul(a, b):
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _norm(v)
    return r


def p_const(c):
    return {(): c} if c != 0 else {}


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_key(a):
    """Canonical key and the sign by which it was multiplied."""
    items = sorted(a.items(), key=lambda t: (len(t[0]) == 0, len(t[0]), t[0]))
    lead = items[0][1]
    k = Fraction(1) / abs(lead) if abs(lead) != 1 else 1
    s = 1 if lead > 0 else -1
    if k == 1 and s == 1:
        return tuple(items), 1
    f = k * s
    return tuple((m, _norm(c * f)) for m, c in items), s


INEXACT = '?inexact'
FLIP = [0, 4, 2, 6, 1, 5, 3, 7]


def _to_reals(e, memo):
    """The formula with integer terms read as real ones; None if it has operations that exist on integers only."""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_int_value(e):
        r = z3.RealVal(e.as_long())
    elif z3.is_const(e):
        r = z3.Real('r!' + e.decl().name()) if z3.is_int(e) else e
    else:
        d = e.decl().kind()
        ch = [_to_reals(x, memo) for x in e.children()]
        if any(x is None for x in ch):
            r = None
        elif d == z3.Z3_OP_TO_REAL:
            r = ch[0]
        elif d == z3.Z3_OP_ITE:
            r = z3.If(*ch)
        elif d == z3.Z3_OP_ADD:
            r = z3.Sum(ch)
        elif d == z3.Z3_OP_SUB:
            r = ch[0] - z3.Sum(ch[1:])
        elif d == z3.Z3_OP_MUL:
            r = z3.Product(ch)
        elif d == z3.Z3_OP_UMINUS:
            r = -ch[0]
        elif d == z3.Z3_OP_LE:
            r = ch[0] <= ch[1]
        elif d == z3.Z3_OP_LT:
            r = ch[0] < ch[1]
        elif d == z3.Z3_OP_GE:
            r = ch[0] >= ch[1]
        elif d == z3.Z3_OP_GT:
            r = ch[0] > ch[1]
        elif d == z3.Z3_OP_EQ:
            r = ch[0] == ch[1]
        elif d == z3.Z3_OP_DISTINCT:
            r = z3.Distinct(*ch)
        elif d == z3.Z3_OP_NOT:
            r = z3.Not(ch[0])
        elif d == z3.Z3_OP_AND:
            r = z3.And(ch)
        elif d == z3.Z3_OP_OR:
            r = z3.Or(ch)
        elif d == z3.Z3_OP_IMPLIES:
            r = z3.Implies(*ch)
        elif d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            r = e
        else:
            r = None
    memo[k] = (e, r)
    return r


def relaxed_unsat(assertions, timeout_ms=15000):
    """True if the assertions have no solution even over the reals (so none over the integers)."""
    memo, out = {}, []
    for a in assertions:
        r = _to_reals(a, memo)
        if r is not None:       # dropping a constraint keeps the answer sound
            out.append(r)
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', timeout_ms)
    s.add(*out)
    return s.check() == z3.unsat


class Engine:
    def __init__(self, timeout_ms=20000):
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.n_relaxed_vain = 0
        self.vars = []          # per var: dict(name, z3, kind, ...)
        self.varkey = {}        # key -> id
        self.frames = []        # event index of each solver frame
        self.frame_sig = []
        self.reset_path([])
        # statistics
        self.n_queries = 0
        self.t_solver = 0.0
        self.n_unknown = 0
        self.n_paths = 0
        self.n_infeasible = 0
        self.n_branches = 0
        self.n_forks = 0
        self.n_checks = 0
        self.n_check_queries = 0
        self.n_solver_cache = 0
        self.cuts = {}
        self.events = []
        self._zcache = {}

    # ---- path handling
    def reset_path(self, prefix, model=None):
        self.prefix = prefix
        self.events = []        # events of the current path
        self.pos = 0
        self.known = {}         # form key -> sign mask
        self.model = model      # dict var id -> Fraction, or None
        self.pending = []       # alternatives found on this path
        self.tokens = []
        self.tokidx = {}
        self.inputs = []        # (name, kind, var id)
        self.path_checks = 0

    def start(self, prefix, model=None):
        """Begin executing a path that follows `prefix`."""
        # common prefix with what is on the solver stack
        common = 0
        old = self.events
        n = min(len(old), len(prefix))
        while common < n and old[common] == prefix[common]:
            common += 1
        k = 0
        while k < len(self.frames) and self.frames[k] < common:
            k += 1
        if k < len(self.frames):
            self.solver.pop(len(self.frames) - k)
            del self.frames[k:]
        self.reset_path(list(prefix), model)
        self.n_frames_ok = len(self.frames)

    def _next(self):
        """Replayed event value, or None when past the prefix."""
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self.events.append(v)
            return v
        return None

    def _assert(self, zexpr):
        """Add a constraint belonging to the event just recorded."""
        i = self.pos - 1
        if self.n_frames_ok and i <= self.frames[self.n_frames_ok - 1]:
            return      # already on the stack
        self.solver.push()
        self.solver.add(zexpr)
        self.frames.append(i)
        self.n_frames_ok = len(self.frames)

    def check_sat(self, zexpr=None, want_model=True):
        self.n_queries += 1
        t = time.perf_counter()
        if zexpr is not None:
            self.solver.push()
            self.solver.add(zexpr)
        r = self._check()
        m = None
        if r == z3.sat and want_model:
            m = self._extract(self.solver.model())
        if zexpr is not None:
            self.solver.pop()
        self.t_solver += time.perf_counter() - t
        if r == z3.unknown:
            self.n_unknown += 1
        return r, m

    def _check(self):
        """Check the solver's assertions; when z3 gives up quickly, try to refute them over the reals."""
        self.solver.set('timeout', 4000)
        r = self.solver.check()
        if r == z3.unknown:
            if self.n_relaxed_vain < 20 and relaxed_unsat(self.solver.assertions()):
                return z3.unsat
            self.n_relaxed_vain += 1
            self.solver.set('timeout', self.timeout_ms)
            r = self.solver.check()
        return r

    def _extract(self, zm):
        vals = {}
        for i, v in enumerate(self.vars):
            if v['kind'] != 'base':
                continue
            z = zm.eval(v['z3'], model_completion=True)
            if z3.is_rational_value(z) or z3.is_int_value(z):
                x = Fraction(z.as_string())
                vals[v['name']] = _norm(x if v['grid'] is None else x * v['grid'])
            elif z3.is_algebraic_value(z):
                vals[v['name']] = Fraction(z.approx(30).as_string())
                vals[INEXACT] = True
            else:
                return None
        return vals

    # ---- variables
    def new_var(self, name, is_int, grid=None):
        key = ('base', name, is_int)
        i = self.varkey.get(key)
        if i is None:
            i = len(self.vars)
            if is_int:
                grid = 1
            z = z3.Real(name) if grid is None else z3.Int(name)      # multiples of the grid
            self.vars.append(dict(kind='base', name=name, z3=z, is_int=is_int, grid=grid,
                                  zi=None if grid is None else z, zr=z if grid is None else None))
            self.varkey[key] = i
        return i

    def ite_var(self, cond, a, b, is_int):
        """Variable for ``a if cond else b`` (polynomials)."""
        key = ('ite', cond.key(), tuple(sorted(a.items())), tuple(sorted(b.items())))
        i = self.varkey.get(key)
        if i is None:
            i = len(self.vars)
            g = 1 if is_int else _grid_gcd(self.p_grid(a), self.p_grid(b))
            zi = zr = None
            if g is not None:
                ia, ib = self.p_int(a, g), self.p_int(b, g)
                if ia is not None and ib is not None and ia[1] == 1 and ib[1] == 1:
                    zi = z3.If(cond.z3(), ia[0], ib[0])
            if zi is None:
                zr = z3.If(cond.z3(), self.p_z3(a), self.p_z3(b))
            self.vars.append(dict(kind='ite', cond=cond, a=a, b=b, is_int=is_int, zr=zr, zi=zi, grid=g))
            self.varkey[key] = i
        return i

    def floor_var(self, a):
        key = ('floor', tuple(sorted(a.items())))
        i = self.varkey.get(key)
        if i is None:
            i = len(self.vars)
            ia = self.p_int(a)
            if ia is not None:
                zi = ia[0] if ia[1] == 1 else ia[0] / ia[1]         # integer division of z3: floor
            else:
                zi = z3.ToInt(self.p_z3(a))
            self.vars.append(dict(kind='floor', a=a, is_int=True, zr=None, zi=zi, grid=1))
            self.varkey[key] = i
        return i

    def p_grid(self, p):
        """Largest known g such that the value is always a multiple of g."""
        g = 0
        for m, c in p.items():
            t = abs(c)
            for v in m:
                gv = self.vars[v]['grid']
                if gv is None:
                    return None
                t = t * gv
            g = _grid_gcd(g, t)
        return g

    def p_int(self, p, unit=1):
        """(z3 integer term, D) with p = unit * term / D, for linear p over grid variables; else None."""
        out, den, const = [], 1, 0
        for m, c in p.items():
            if not m:
                const = Fraction(c) / unit
                den = den * const.denominator // math.gcd(den, const.denominator)
                continue
            if len(m) != 1:
                return None
            v = self.vars[m[0]]
            if v['zi'] is None:
                return None
            k = Fraction(c) * v['grid'] / unit
            den = den * k.denominator // math.gcd(den, k.denominator)
            out.append((k, v['zi']))
        terms = [z if k * den == 1 else z3.IntVal(int(k * den)) * z for k, z in out]
        if const or not terms:
            terms.append(z3.IntVal(int(const * den)))
        return (terms[0] if len(terms) == 1 else z3.Sum(terms)), den

    def v_real(self, v):
        d = self.vars[v]
        if d['zr'] is None:
            z = z3.ToReal(d['zi'])
            d['zr'] = z if d['grid'] == 1 else _q(d['grid']) * z
        return d['zr']

    def p_z3(self, p):
        terms = []
        for m, c in p.items():
            if not m:
                terms.append(_q(c))
                continue
            z = self.v_real(m[0])
            for v in m[1:]:
                z = z * self.v_real(v)
            if c != 1:
                z = _q(c) * z
            terms.append(z)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def cmp_z3(self, key, mask):
        zk = (key, mask)
        z = self._zcache.get(zk)
        if z is None:
            p = dict(key)
            c = p.pop((), 0)
            ip = self.p_int(p)
            if ip is not None:
                # integer comparison: lhs * D  <op>  -c * D
                lhs, rhs = ip[0], Fraction(-c) * ip[1]
                if rhs.denominator != 1:
                    if mask in (EQ, NE):
                        z = z3.BoolVal(mask == NE)
                        self._zcache[zk] = z
                        return z
                    # strict or not makes no difference between two integers
                    if mask in (LT, LE):
                        mask, rhs = LE, Fraction(math.floor(rhs))
                    else:
                        mask, rhs = GE, Fraction(math.ceil(rhs))
                rhs = z3.IntVal(int(rhs))
            else:
                lhs = self.p_z3(p)
                rhs = _q(-c)
            z = {LT: lambda: lhs < rhs, LE: lambda: lhs <= rhs, EQ: lambda: lhs == rhs,
                 GE: lambda: lhs >= rhs, GT: lambda: lhs > rhs, NE: lambda: lhs != rhs}[mask]()
            self._zcache[zk] = z
        return z

    def p_eval(self, p, vals, memo=None):
        """Value of a polynomial under a model."""
        s = 0
        if memo is None:
            memo = {}
        for m, c in p.items():
            t = c
            for v in m:
                t = t * self.v_eval(v, vals, memo)
            s = s + t
        return _norm(s)

    def v_eval(self, v, vals, memo):
        if v in memo:
            return memo[v]
        d = self.vars[v]
        k = d['kind']
        if k == 'base':
            r = vals.get(d['name'], 0)
        elif k == 'ite':
            r = self.p_eval(d['a'] if d['cond'].eval(self, vals, memo) else d['b'], vals, memo)
        else:
            r = math.floor(self.p_eval(d['a'], vals, memo))
        memo[v] = r
        return r

    def cur_model(self):
        if self.model is None:
            r, m = self.check_sat()
            if r == z3.unsat:
                self.n_infeasible += 1
                raise PathAbort()
            self.model = m
        return self.model

    # ---- decisions
    def note(self, key, mask):
        self.known[key] = self.known.get(key, ANY) & mask

    def status(self, b):
        """True/False if already known on this path, else None."""
        if b.op == 'cmp':
            k = self.known.get(b.a, ANY)
            if k & b.b == 0:
                return False
            if k & ~b.b & ANY == 0:
                return True
            return None
        if b.op == 'not':
            s = self.status(b.a)
            return None if s is None else not s
        sts = [self.status(x) for x in b.a]
        if b.op == 'and':
            if any(s is False for s in sts):
                return False
            return True if all(s is True for s in sts) else None
        if any(s is True for s in sts):
            return True
        return False if all(s is False for s in sts) else None

    def learn(self, b, truth):
        if b.op == 'cmp':
            self.note(b.a, b.b if truth else ANY & ~b.b)
        elif b.op == 'not':
            self.learn(b.a, not truth)
        elif b.op == 'and' and truth or b.op == 'or' and not truth:
            for x in b.a:
                self.learn(x, truth)

    def branch(self, b):
        s = self.status(b)
        if s is not None:
            return s
        self.n_branches += 1
        ev = self._next()
        if ev is None:
            ev = self._decide(b)
            self.events.append(ev)
        # ev: 0/1 forced by path condition, 2/3 forked
        truth = ev in (1, 3)
        if ev >= 2:
            self._assert(b.z3() if truth else z3.Not(b.z3()))
        self.learn(b, truth)
        return truth

    def _decide(self, b):
        m = self.model
        zb = b.z3()
        side = None
        if m is not None and INEXACT not in m:
            side = b.eval(self, m, {})
        if side is None:
            r, m1 = self.check_sat(zb)
            if r == z3.unsat:
                return 0
            r2, m0 = self.check_sat(z3.Not(zb))
            if r2 == z3.unsat:
                self.model = m1
                return 1
            self._fork(2, m0)
            self.model = m1
            return 3
        other = z3.Not(zb) if side else zb
        r, mo = self.check_sat(other)
        if r == z3.unsat:
            return 1 if side else 0
        # explore the side of the current model first
        self._fork(2 if side else 3, mo)
        return 3 if side else 2

    def _fork(self, alt, model):
        self.n_forks += 1
        if self.prof is not None:
            self._prof()
        self.pending.append((list(self.events) + [alt], model))

    prof = None

    def _prof(self):
        import traceback
        fr = [f for f in traceback.extract_stack() if '/symx/' not in f.filename or 'fitzsym' in f.filename]
        k = ' < '.join(f'{f.filename.rsplit("/", 1)[-1]}:{f.lineno}' for f in reversed(fr[-6:]))
        self.prof[k] = self.prof.get(k, 0) + 1

    def implied(self, b):
        """True/False if the path condition implies b / not b; None otherwise.
        Never forks."""
        s = self.status(b)
        if s is not None:
            return s
        ev = self._next()
        if ev is None:
            m = self.cur_model()
            if m is not None and INEXACT not in m:
                side = b.eval(self, m, {})
                r, _ = self.check_sat(z3.Not(b.z3()) if side else b.z3(), False)
                ev = ((11 if side else 10) if r == z3.unsat else 12)
            else:
                r, _ = self.check_sat(z3.Not(b.z3()), False)
                if r == z3.unsat:
                    ev = 11
                else:
                    r, _ = self.check_sat(b.z3(), False)
                    ev = 10 if r == z3.unsat else 12
            self.events.append(ev)
        if ev == 12:
            return None
        self.learn(b, ev == 11)
        return ev == 11

    def assume(self, b):
        if b is True:
            return
        if b is False:
            self.n_infeasible += 1
            raise PathAbort()
        s = self.status(b)
        if s is True:
            return
        ev = self._next()
        zb = b.z3()
        if ev is None:
            self.events.append(20)
            self._assert(zb)
            m = self.model
            if m is None or INEXACT in m or not b.eval(self, m, {}):
                r, m = self.check_sat()
                if r == z3.unsat:
                    self.n_infeasible += 1
                    raise PathAbort()
                self.model = m
        else:
            self._assert(zb)
        self.learn(b, True)

    def concretise(self, num):
        """Fork over the values of an integer term; returns a Python int."""
        while True:
            ev = self._next()
            if ev is None:
                m = self.cur_model()
                ev = ('v', int(self.p_eval(num.n, m)))
                self.events.append(ev)
            v = ev[1]
            if bool(num == v):
                return v

    def assert_(self, b, msg):
        """Property assertion: the solver shows b for all values on this path,
        or a counterexample is raised."""
        if isinstance(b, SymBool):
            if self.status(b) is True:
                return
            ev = self._next()
            if ev is not None:
                # already decided when this prefix was first executed
                self.learn(b, True)
                return
            self.n_check_queries += 1
            neg = z3.Not(b.z3())
        else:
            neg = None
        models, res = self.violation_models(neg)
        if models:
            raise Violation(msg, models)
        if res == 'unknown':
            raise Inconclusive(f'solver gave no answer for: {msg}')
        if neg is None:
            # the path itself is infeasible on the input grid
            raise PathAbort()
        self.events.append(30)
        self.learn(b, True)

    def violation_models(self, neg, want=4):
        """Input values on this path that satisfy `neg` (None: any), preferring
        values that are exact in binary floating point."""
        r, m = self.check_sat(neg)
        if r == z3.unsat:
            return [], 'unsat'
        gv = [self.vars[i] for _, i in self.inputs if not self.vars[i]['is_int']]
        out, seen, res = [], set(), 'unsat'
        base = [z3.BoolVal(True)] if neg is None else [neg]

        def ask(extra):
            nonlocal res
            self.solver.push()
            self.solver.add(*base)
            self.solver.add(*extra)
            r = self._check()
            self.n_queries += 1
            if r == z3.sat:
                m = self._extract(self.solver.model())
                k = tuple(sorted((n, str(v)) for n, v in m.items()))
                if k not in seen:
                    seen.add(k)
                    out.append({self.vars[i]['name']: m.get(self.vars[i]['name'], 0) for _, i in self.inputs})
                res = 'sat'
            elif r == z3.unknown and res != 'sat':
                res = 'unknown'
            self.solver.pop()
            return r

        def grid(g):
            # z is a multiple of g
            out = []
            for v in gv:
                if v['grid'] is None:
                    out.append(v['z3'] == z3.ToReal(z3.Int('grid!' + v['name'])) * _q(g))
                else:
                    k = g / v['grid']
                    if k.denominator == 1 and k > 1:
                        out.append(v['z3'] % int(k) == 0)
            return out

        if not gv:
            ask([])
            return out, res
        for g in (Fraction(1), Fraction(1, 2)):
            if ask(grid(g)) == z3.sat and len(out) >= want:
                break
        if len(out) < want:
            ex = []
            if ask(ex) == z3.unsat and not out:
                return [], 'unsat'
            # a few more, away from each other
            for _ in range(want - len(out)):
                if not out:
                    break
                last = out[-1]
                far = []
                for v in gv:
                    a = last[v['name']]
                    if v['grid'] is None:
                        far += [v['z3'] > _q(a + 1), v['z3'] < _q(a - 1)]
                    else:
                        far += [v['z3'] > math.floor((a + 1) / v['grid']), v['z3'] < math.ceil((a - 1) / v['grid'])]
                far = [z3.Or(far)] if far else []
                if ask(ex + far) != z3.sat:
                    break
        return out, res

    def pin(self, num):
        """Value of a real term needed by native code: continue with one value
        only; recorded as a cut (what lies outside is not covered)."""
        import sys
        f = sys._getframe(2)
        self.cut(f'value pinned at {f.f_code.co_filename.rsplit("/", 1)[-1]}:{f.f_lineno}')
        ev = self._next()
        if ev is None:
            m = self.cur_model()
            v = Fraction(self.p_eval(num.n, m))
            if num.d is not None:
                v = v / self.p_eval(num.d, m)
            ev = ('p', v)
            self.events.append(ev)
        self.assume(num == ev[1])
        return float(ev[1])

    def cut(self, what):
        self.cuts[what] = self.cuts.get(what, 0) + 1

    # ---- tokens: strings standing for symbolic numbers
    def token(self, obj):
        k = id(obj)
        i = self.tokidx.get(k)
        if i is None:
            i = len(self.tokens)
            self.tokens.append(obj)
            self.tokidx[k] = i
        return f'{TOK0}{i}{TOK1}'

    def untoken(self, s):
        """SymNum of a token string (with an optional decimal factor), or None."""
        if not isinstance(s, str):
            return None
        if s.startswith(TOK0) and s.endswith(TOK1) and s.count(TOK0) == 1:
            return self.tokens[int(s[len(TOK0):-len(TOK1)])]
        if s.startswith('917') and len(s) == 15 and s.isdigit() and int(s) - MAGIC < len(self.tokens):
            return self.tokens[int(s) - MAGIC]
        return None


TOK0, TOK1 = 'SYMQ', 'QMYS'
MAGIC = 917000000000000       # + token number: an integer standing for a symbolic one in text


def _grid_gcd(a, b):
    if a is None or b is None:
        return None
    a, b = Fraction(a), Fraction(b)
    if a == 0:
        return _norm(b)
    if b == 0:
        return _norm(a)
    den = a.denominator * b.denominator
    return _norm(Fraction(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), den))


def _q(c):
    if type(c) is int:
        return z3.RealVal(c)
    return z3.RealVal(f'{c.numerator}/{c.denominator}') if isinstance(c, Fraction) else z3.RealVal(c)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ('op', 'a', 'b', '_z')

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b, self._z = op, a, b, None

    def key(self):
        if self.op == 'cmp':
            return ('cmp', self.a, self.b)
        if self.op == 'not':
            return ('not', self.a.key())
        return (self.op,) + tuple(x.key() for x in self.a)

    def z3(self):
        if self._z is None:
            if self.op == 'cmp':
                self._z = ENG.cmp_z3(self.a, self.b)
            elif self.op == 'not':
                self._z = z3.Not(self.a.z3())
            else:
                f = z3.And if self.op == 'and' else z3.Or
                self._z = f([x.z3() for x in self.a])
        return self._z

    def eval(self, eng, vals, memo):
        if self.op == 'cmp':
            v = eng.p_eval(dict(self.a), vals, memo)
            s = ZERO if v == 0 else (POS if v > 0 else NEG)
            return bool(s & self.b)
        if self.op == 'not':
            return not self.a.eval(eng, vals, memo)
        it = (x.eval(eng, vals, memo) for x in self.a)
        return all(it) if self.op == 'and' else any(it)

    def __bool__(self):
        return ENG.branch(self)

    def __invert__(self):
        if self.op == 'cmp':
            return SymBool('cmp', self.a, ANY & ~self.b)
        if self.op == 'not':
            return self.a
        return SymBool('not', self)

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return s_or(s_and(self, s_not(o)), s_and(s_not(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_not(self ^ o)
        if isinstance(o, (int, float, SymNum)):
            return self.num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return hash(bool(self))

    def num(self):
        return ite(self, 1, 0)

    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o

    def __repr__(self):
        return 'True' if bool(self) else 'False'


def s_not(a):
    return ~a if isinstance(a, SymBool) else (not a)


def s_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.op == 'and':
                out.extend(x.a)
            else:
                out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', tuple(out))


def s_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.op == 'or':
                out.extend(x.a)
            else:
                out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', tuple(out))


def s_implies(a, b):
    return s_or(s_not(a), b)


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
def mk(n, d=None, is_int=False):
    if d is not None:
        if p_is_const(d):
            n, d = p_scale(n, Fraction(1) / d[()]), None
            is_int = False
        elif not n:
            d = None
    if d is None and p_is_const(n):
        c = n.get((), 0)
        if is_int and type(c) is int:
            return c
        return float(c)
    r = object.__new__(SymNum)
    r.n, r.d, r.isint = n, d, is_int
    return r


def lift(x):
    """(numerator, denominator|None, is_int) of a number, or None."""
    if type(x) is SymNum or isinstance(x, SymNum):
        return x.n, x.d, x.isint
    if isinstance(x, SymBool):
        x = x.num()
        return lift(x)
    if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
        return None
    try:
        q = to_q(x)
    except TypeError:
        return None
    return p_const(q), None, isinstance(x, int)


def cmp_form(f, mask):
    """SymBool/bool for ``f <mask> 0``."""
    if p_is_const(f):
        c = f.get((), 0)
        s = ZERO if c == 0 else (POS if c > 0 else NEG)
        return bool(s & mask)
    key, s = p_key(f)
    return SymBool('cmp', key, mask if s == 1 else FLIP[mask])


def compare(a, b, mask):
    if isinstance(b, float) and b in (math.inf, -math.inf):
        return bool((NEG if b > 0 else POS) & mask)
    lb = lift(b)
    if lb is None:
        return NotImplemented
    n1, d1 = a.n, a.d
    n2, d2, _ = lb
    if d1 is not None:
        n2 = p_mul(n2, d1)
    if d2 is not None:
        n1 = p_mul(n1, d2)
    return cmp_form(p_add(n1, n2, -1), mask)


def ite(cond, a, b):
    """a if cond else b, merged into one term where possible."""
    if not isinstance(cond, SymBool):
        return a if cond else b
    s = ENG.implied(cond)
    if s is not None:
        return a if s else b
    la, lb = lift(a), lift(b)
    if la is None or lb is None or la[1] is not None or lb[1] is not None:
        return a if bool(cond) else b
    if la[0] == lb[0]:
        return a
    is_int = la[2] and lb[2]
    v = ENG.ite_var(cond, la[0], lb[0], is_int)
    return mk({(v,): 1}, None, is_int)


class SymNum:
    """Symbolic integer or real (n/d; d>0 on this path)."""
    __slots__ = ('n', 'd', 'isint')

    def _bin(self, o, f):
        lo = lift(o)
        if lo is None:
            return NotImplemented
        return f(self.n, self.d, self.isint, *lo)

    def __add__(self, o, s=1):
        lo = lift(o)
        if lo is None:
            return o if isinstance(o, float) else NotImplemented
        n2, d2, i2 = lo
        if self.d is None and d2 is None:
            return mk(p_add(self.n, n2, s), None, self.isint and i2)
        if self.d is None:
            return mk(p_add(p_mul(self.n, d2), n2, s), d2)
        if d2 is None:
            return mk(p_add(self.n, p_mul(n2, self.d), s), self.d)
        if self.d == d2:
            return mk(p_add(self.n, n2, s), self.d)
        return mk(p_add(p_mul(self.n, d2), p_mul(n2, self.d), s), p_mul(self.d, d2))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float) and lift(o) is None:
            return -o
        return self.__add__(o, -1)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __neg__(self):
        return mk(p_scale(self.n, -1), self.d, self.isint)

    def __pos__(self):
        return self

    def __mul__(self, o):
        lo = lift(o)
        if lo is None:
            if isinstance(o, (list, tuple, str)) and self.isint:
                return o * self.__index__()
            return NotImplemented
        n2, d2, i2 = lo
        n = p_mul(self.n, n2)
        if self.d is None and d2 is None:
            return mk(n, None, self.isint and i2)
        d = d2 if self.d is None else (self.d if d2 is None else p_mul(self.d, d2))
        return mk(n, d)

    __rmul__ = __mul__

    @staticmethod
    def _div(n1, d1, n2, d2):
        # (n1/d1) / (n2/d2) = n1*d2 / (d1*n2)
        if not n2:
            raise ZeroDivisionError('division by zero')
        if p_is_const(n2):
            k = Fraction(1) / n2[()]
            n = p_scale(n1, k)
            if d2 is not None:
                n = p_mul(n, d2)
            return mk(n, d1)
        if bool(cmp_form(n2, EQ)):
            raise ZeroDivisionError('division by zero')
        if not bool(cmp_form(n2, GT)):
            n1, n2 = p_scale(n1, -1), p_scale(n2, -1)
        n = n1 if d2 is None else p_mul(n1, d2)
        d = n2 if d1 is None else p_mul(d1, n2)
        # proportional -> constant
        if n and set(n) == set(d):
            m0 = next(iter(n))
            k = Fraction(n[m0]) / d[m0]
            if all(n[m] == k * d[m] for m in n):
                return float(k)
        return mk(n, d)

    def __truediv__(self, o):
        lo = lift(o)
        if lo is None:
            return 0.0 if isinstance(o, float) else NotImplemented
        return self._div(self.n, self.d, lo[0], lo[1])

    def __rtruediv__(self, o):
        lo = lift(o)
        if lo is None:
            return NotImplemented
        return self._div(lo[0], lo[1], self.n, self.d)

    def __floordiv__(self, o):
        q = self / o
        f = _floor(q)
        lo = lift(o)
        return f if self.isint and lo[2] else to_real(f)

    def __rfloordiv__(self, o):
        q = o / self
        f = _floor(q)
        return f if self.isint and isinstance(o, int) else to_real(f)

    def __mod__(self, o):
        return self - o * _floor(self / o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o - self * _floor(o / self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __pow__(self, k, mod=None):
        if isinstance(k, int) and 0 <= k <= 4:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        if k == 0.5:
            raise EngineError('sqrt of a symbolic number')
        return NotImplemented

    def __abs__(self):
        return ite(self >= 0, self, -self)

    # comparisons
    def __lt__(self, o): return compare(self, o, LT)
    def __le__(self, o): return compare(self, o, LE)
    def __gt__(self, o): return compare(self, o, GT)
    def __ge__(self, o): return compare(self, o, GE)

    def __eq__(self, o):
        if o is None:
            return False
        return compare(self, o, EQ)

    def __ne__(self, o):
        if o is None:
            return True
        return compare(self, o, NE)

    def __hash__(self):
        return 0

    def __bool__(self):
        r = compare(self, 0, NE)
        return bool(r)

    # bit operations with constants, for non-negative integers
    def __and__(self, k):
        if isinstance(k, SymNum):
            return NotImplemented
        k = int(k)
        if not self.isint:
            return NotImplemented
        if bool(self < 0):
            return self.__index__() & k
        r, b = 0, 0
        while k >> b:
            # maximal run of ones starting at bit b
            if (k >> b) & 1:
                e = b
                while (k >> e) & 1:
                    e += 1
                part = _floor(self / (1 << b)) % (1 << (e - b))
                r = r + part * (1 << b)
                b = e
            else:
                b += 1
        return r
    __rand__ = __and__

    def __rshift__(self, k):
        return _floor(self / (1 << int(k)))

    def __lshift__(self, k):
        return self * (1 << int(k))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __or__(self, o):
        # exact when operands do not share bits: a|b = a+b-(a&b)
        if isinstance(o, int):
            return self + o - (self & o)
        return NotImplemented
    __ror__ = __or__

    # conversions
    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ENG.concretise(self)

    def __int__(self):
        # int() is shadowed in the code under test: only %-formatting of a number gets here
        return MAGIC + int(ENG.token(trunc(self))[len(TOK0):-len(TOK1)])

    def __float__(self):
        return ENG.pin(self)

    def __floor__(self):
        return _floor(self)

    def __ceil__(self):
        return -_floor(-self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, nd=None):
        return sround(self, nd)

    def is_integer(self):
        return self == _floor(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineError('pickling a symbolic number')

    def __str__(self):
        return ENG.token(self)
    __repr__ = __str__

    def __format__(self, spec):
        return format_num(self, spec)


def to_real(x):
    if isinstance(x, SymNum):
        return mk(x.n, x.d, False) if x.isint else x
    return float(x)


def _floor(x):
    if not isinstance(x, SymNum):
        return math.floor(x)
    if x.isint:
        return x
    if x.d is not None:
        return LazyFloor.make(x, 1)
    # split off the terms known to be integers
    whole, rest = {}, {}
    for m, c in x.n.items():
        g = c
        for v in m:
            gv = ENG.vars[v]['grid']
            if gv is None:
                g = None
                break
            g = g * gv
        if g is not None and Fraction(g).denominator == 1:
            whole[m] = c
        elif not m:
            k = math.floor(c)
            if k:
                whole[()] = k
            rest[()] = c - k
        else:
            rest[m] = c
    if p_is_const(rest):
        k = math.floor(rest.get((), 0))
        return mk(p_add(whole, p_const(k)), None, True)
    # integers with fractional coefficients, e.g. the high byte of 65536*r + 256*g + b
    w2, r2 = dict(whole), {}
    for m, c in rest.items():
        k = 0
        if m and all(ENG.vars[v]['grid'] is not None and Fraction(ENG.vars[v]['grid']).denominator == 1 for v in m):
            k = math.floor(c)
        if k:
            w2 = p_add(w2, {m: k})
        if c != k:
            r2[m] = _norm(c - k)
    if all(m == () or ENG.vars[m[0]]['grid'] == 1 for m in r2):
        y = mk(r2, None)
        if ENG.implied(s_and(y >= 0, y < 1)) is True:
            return mk(w2, None, True)
    v = ENG.floor_var(rest)
    return mk(p_add(whole, {(v,): 1}), None, True)


def _floor_ratio(x):
    """floor of a ratio of polynomials: fork over its value (bounded)."""
    m = ENG.cur_model()
    n = 0
    while True:
        ev = ENG._next()
        if ev is None:
            m = ENG.cur_model()
            d = ENG.p_eval(x.d, m)
            ev = ('v', int(math.floor(Fraction(ENG.p_eval(x.n, m)) / d)))
            ENG.events.append(ev)
        v = ev[1]
        if bool(s_and(x >= v, x < v + 1)):
            return v
        n += 1
        if n > 64:
            raise EngineError('unbounded floor of a ratio')


def trunc(x):
    if isinstance(x, SymBool):
        return x.num()
    if not isinstance(x, SymNum):
        return int(x)
    if x.isint:
        return x
    s = ENG.implied(x >= 0)
    if s is True:
        return _floor(x)
    if s is False:
        return -_floor(-x)
    return _floor(x) if bool(x >= 0) else -_floor(-x)


def sround(x, nd=None):
    if not isinstance(x, SymNum):
        return round(x) if nd is None else round(x, nd)
    if x.isint and (nd is None or nd >= 0):
        return x
    k = 10 ** (nd or 0)
    if not x.isint and x.d is not None:
        return LazyFloor.make(x * k + Fraction(1, 2), k, nd is None)
    r = _floor(x * k + Fraction(1, 2))
    if nd is None:
        # half to even
        if isinstance(r, SymNum) and bool(r == x + Fraction(1, 2)) and bool(r % 2 == 1):
            return r - 1
        return r
    return to_real(r) / k if k != 1 else to_real(r)


class LazyFloor(SymNum):
    """floor(X)/k of a ratio X: compared with constants directly, otherwise forked over its values."""
    __slots__ = ('X', 'k', 'v')

    @staticmethod
    def make(X, k, is_int=True):
        if not isinstance(X, SymNum) or X.d is None:
            f = _floor(X)
            return f if k == 1 and is_int else (to_real(f) / k)
        r = object.__new__(LazyFloor)
        r.X, r.k, r.v = X, k, None
        SymNum.isint.__set__(r, is_int and k == 1)
        return r

    def force(self):
        if self.v is None:
            self.v = Fraction(_floor_ratio(self.X)) / self.k
        return self.v

    @property
    def n(self):
        return p_const(_norm(self.force()))

    @property
    def d(self):
        return None

    def _cmp(self, o, mask):
        if self.v is None and not isinstance(o, (SymNum, SymBool)):
            try:
                t = Fraction(to_q(o)) * self.k
            except (TypeError, ValueError, OverflowError):
                return compare(self, o, mask)
            X = self.X
            if mask == GE:
                return X >= math.ceil(t)
            if mask == GT:
                return X >= math.floor(t) + 1
            if mask == LT:
                return X < math.ceil(t)
            if mask == LE:
                return X < math.floor(t) + 1
            if t.denominator != 1:
                return mask == NE
            eq = s_and(X >= t, X < t + 1)
            return eq if mask == EQ else s_not(eq)
        return compare(self, o, mask)

    def __lt__(self, o): return self._cmp(o, LT)
    def __le__(self, o): return self._cmp(o, LE)
    def __gt__(self, o): return self._cmp(o, GT)
    def __ge__(self, o): return self._cmp(o, GE)

    def __eq__(self, o):
        return False if o is None else self._cmp(o, EQ)

    def __ne__(self, o):
        return True if o is None else self._cmp(o, NE)

    __hash__ = SymNum.__hash__

    def __bool__(self):
        return bool(self._cmp(0, NE))


class SymFmt:
    """A formatted symbolic number (e.g. hexadecimal digits of known width)."""
    __slots__ = ('num', 'spec')

    def __init__(self, num, spec):
        self.num, self.spec = num, spec


def format_num(x, spec):
    if spec in ('', 's', 'd'):
        return ENG.token(x)
    if spec.endswith('f') or spec.endswith('g'):
        if spec.startswith('.') and spec.endswith('f'):
            return ENG.token(sround(x, int(spec[1:-1])))
        return ENG.token(x)
    return ENG.token(SymFmt(x, spec))


def smax(*args, **kw):
    return _ext(builtin_max, True, args, kw)


def smin(*args, **kw):
    return _ext(builtin_min, False, args, kw)


builtin_max, builtin_min = max, min


def _ext(f, ismax, args, kw):
    if 'key' in kw or kw:
        return f(*args, **kw)
    items = list(args[0]) if len(args) == 1 else list(args)
    if not any(isinstance(x, (SymNum, SymBool)) for x in items):
        return f(items)
    if not all(isinstance(x, (SymNum, SymBool, int, float)) for x in items):
        return f(items)
    r = items[0]
    for x in items[1:]:
        # ties: keep the first, as the builtin does
        r = ite(x > r, x, r) if ismax else ite(x < r, x, r)
    return r


def sabs(x):
    return abs(x)
