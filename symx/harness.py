"""Harness definition and the context object handed to harness functions.

The same harness function runs in two modes: symbolically (inputs are symbolic,
all paths are explored) and concretely (inputs come from a solver model; nothing is
patched), the latter to replay counterexamples and to validate the encoding."""
from fractions import Fraction

from . import core
from .core import (SymNum, SymBool, PathAbort, Violation, s_and, s_or, s_not,
                   s_implies, ite, smax, smin, mk)

GRID = Fraction(1, 10)


class Harness:
    def __init__(self, name, fn, bounds, quick=None, thorough=None, stubs=(), covers=(), expect_exc=()):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.params = {'quick': quick if quick is False else quick or {}, 'thorough': thorough or quick or {}}
        self.stubs, self.covers = tuple(stubs), tuple(covers)


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Ctx:
    def __init__(self, params, symbolic, values=None):
        self.params = params
        self.symbolic = symbolic
        self.values = values or {}
        self.covered = set()
        self.obs = []
        self.n_checks = 0

    def __getattr__(self, k):
        try:
            return self.__dict__['params'][k]
        except KeyError:
            raise AttributeError(k)

    # ---- inputs
    def real(self, name, lo, hi, grid=GRID):
        if not self.symbolic:
            return float(self.values[name]) if name in self.values else float(lo)
        v = core.ENG.new_var(name, False, grid)
        x = mk({(v,): 1})
        core.ENG.inputs.append((name, v))
        core.ENG.assume(s_and(x >= lo, x <= hi))
        return x

    def int(self, name, lo, hi):
        if not self.symbolic:
            return int(self.values[name]) if name in self.values else int(lo)
        v = core.ENG.new_var(name, True)
        x = mk({(v,): 1}, None, True)
        core.ENG.inputs.append((name, v))
        core.ENG.assume(s_and(x >= lo, x <= hi))
        return x

    def bool(self, name):
        x = self.int(name, 0, 1)
        return x == 1

    def pick(self, name, lo, hi):
        """A concrete integer of [lo, hi]: the solver forks over all of them."""
        x = self.int(name, lo, hi)
        return core.ENG.concretise(x) if isinstance(x, SymNum) else x

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.pick(name, 0, len(seq) - 1)]

    # ---- conditions
    def assume(self, c):
        if self.symbolic:
            core.ENG.assume(c if isinstance(c, SymBool) else bool(c))
        elif not c:
            raise AssumeFailed()

    def check(self, c, msg):
        self.n_checks += 1
        if not self.symbolic:
            if not c:
                raise CheckFailed(msg)
            return
        core.ENG.n_checks += 1
        core.ENG.path_checks += 1
        if c is True or (not isinstance(c, SymBool) and c):
            return
        core.ENG.assert_(c if isinstance(c, SymBool) else False, msg)

    def fail(self, msg):
        self.check(False, msg)

    def near(self, a, b, tol=1e-3):
        d = a - b
        return s_and(d <= tol, d >= -tol)

    def both(self, *cs):
        return s_and(*cs)

    def either(self, *cs):
        return s_or(*cs)

    def no(self, c):
        return s_not(c)

    def implies(self, a, b):
        return s_implies(a, b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def max(self, *a):
        return a[0] if len(a) == 1 else smax(*a)

    def min(self, *a):
        return a[0] if len(a) == 1 else smin(*a)

    def true(self, c):
        """Decide c here (forking)."""
        return bool(c)

    # ---- bookkeeping
    def cover(self, tag):
        self.covered.add(tag)

    def observe(self, value):
        """A result compared between symbolic and concrete execution."""
        self.obs.append(value)
