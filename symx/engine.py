"""Path exploration, obligations, solver queries, counterexample search and replay."""
import json
import math
import os
import random
import re
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import core, arr, stubs, loader  # noqa: E402
from .core import S, Sym, SymBool, Unsupported, lift, plain, resolve  # noqa: E402
from .arr import SymArray, sarr, has_sym, raw  # noqa: E402

EPS = 1e-9           # relative tolerance per monomial in the equality queries (float coefficients)
RTOL = 1e-6          # relative disagreement that counts as a violation in a concrete replay


class PathAbort(BaseException):
    """The current path is infeasible."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.trivial = 0
        self.paths = 0
        self.replays = 0
        self.nra = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0

    def d(self):
        return dict(self.__dict__)


ST = Stats()


def solve(solver, kind='lra'):
    t = time.time()
    r = solver.check()
    ST.solver_s += time.time() - t
    ST.queries += 1
    if r == z3.unsat:
        ST.unsat += 1
    elif r == z3.sat:
        ST.sat += 1
    else:
        ST.unknown += 1
    return r


# ---------------------------------------------------------------------------------------------- z3 translation
def rat(c):
    f = Fraction(float(c))
    return z3.Q(f.numerator, f.denominator)


class Z:
    """Translation of polynomials to z3 real terms with axioms for the non-polynomial atoms."""

    def __init__(self):
        self.vars = {}
        self.ax = []
        self.done = set()
        self.exps = []
        self.logs = []
        self.fns = {}
        self.pows = {}

    def atom(self, aid):
        if aid in self.vars:
            return self.vars[aid]
        a = S.atoms[aid]
        if a.kind == 'sgn':
            p = self.poly(S.polys[a.data[0]])
            v = z3.If(p > 0 if a.data[1] > 0 else p < 0, z3.RealVal(1), z3.RealVal(0))
            self.vars[aid] = v
            return v
        v = z3.Real(f'a{aid}')
        self.vars[aid] = v
        if a.pos:
            self.ax.append(v > 0)
        if a.lo > -1e200 and (a.lo != 0 or not a.pos):
            self.ax.append(v >= rat(a.lo))
        if a.hi < 1e200:
            self.ax.append(v <= rat(a.hi))
        if a.kind == 'poly':
            self.ax.append(v == self.poly(S.polys[a.data]))
        elif a.kind == 'exp':
            m = self.poly(Sym({a.data: 1.0}))
            self.ax += [v > 0, v >= 1 + m, v * (1 - m) <= 1, z3.Implies(m <= 0, v <= 1), z3.Implies(m < 0, v < 1), z3.Implies(m > 0, v > 1)]
            for (m2, v2) in self.exps:
                self.ax.append((m < m2) == (v < v2))
                self.ax.append((m == m2) == (v == v2))
            self.exps.append((m, v))
        elif a.kind == 'log':
            p = self.poly(S.polys[a.data])
            self.ax += [p > 0, v <= p - 1, (v > 0) == (p > 1), (v == 0) == (p == 1)]
            for (p2, v2) in self.logs:
                self.ax.append((p < p2) == (v < v2))
                self.ax.append((p == p2) == (v == v2))
            self.logs.append((p, v))
        elif a.kind == 'fn':
            args = [self.poly(S.polys[p]) for p in a.data[1:]]
            name = a.data[0]
            if name in ('erf', 'tanh', 'arctan'):
                x = args[0]
                self.ax += [v > -1 if name != 'arctan' else v > -2, v < 1 if name != 'arctan' else v < 2,
                            (v > 0) == (x > 0), (v == 0) == (x == 0)]
                for (x2, v2) in self.fns.setdefault(name, []):
                    self.ax.append((x < x2) == (v < v2))
                self.fns[name].append((x, v))
        return v

    def apow(self, aid, e):
        v = self.atom(aid)
        if isinstance(e, int):
            if e > 0 and e <= 12:
                r = v
                for _ in range(e - 1):
                    r = r * v
                return r
            if -12 <= e < 0:
                r = self.apow(aid, -e)
                inv = self.vars.get((aid, e))
                if inv is None:
                    inv = z3.Real(f'i{aid}_{-e}')
                    self.vars[(aid, e)] = inv
                    self.ax.append(inv * r == 1)
                    if S.atoms[aid].pos:
                        self.ax.append(inv > 0)
                return inv
        key = (aid, e)
        w = self.vars.get(key)
        if w is None:
            w = z3.Real(f'p{aid}_{e}'.replace('.', '_').replace('-', 'm'))
            self.vars[key] = w
            self.ax.append(w > 0)
            self.ax.append(z3.Implies(v == 1, w == 1))
            if e > 0:
                self.ax += [(v > 1) == (w > 1)]
            else:
                self.ax += [(v > 1) == (w < 1)]
            a = S.atoms[aid]
            if a.lo > 0:
                b = sorted((a.lo ** e, a.hi ** e)) if a.hi < 1e200 else None
                if b and b[1] < 1e250:
                    self.ax += [w >= rat(b[0] * (1 - 1e-12)), w <= rat(b[1] * (1 + 1e-12))]
            for (v2, w2) in self.pows.setdefault(e, []):
                self.ax.append((v < v2) == (w < w2) if e > 0 else (v < v2) == (w > w2))
                self.ax.append((v == v2) == (w == w2))
            self.pows[e].append((v, w))
            f = Fraction(e).limit_denominator(12)
            if abs(float(f) - e) < 1e-12 and 1 < f.denominator <= 12 and abs(f.numerator) <= 12:
                l = w
                for _ in range(f.denominator - 1):
                    l = l * w
                self.ax.append(l == self.apow(aid, int(f.numerator)))
        return w

    def link(self):
        """x^b = x^a * x^(b-a) for the non-integer powers of one atom."""
        keys = {}
        for k in list(self.vars):
            if isinstance(k, tuple) and not isinstance(k[1], int):
                keys.setdefault(k[0], []).append(k[1])
        for aid, es in keys.items():
            es.sort()
            for a, b in zip(es, es[1:]):
                d = b - a
                d = int(round(d)) if abs(d - round(d)) < 1e-12 else d
                if abs(d) > 1e-12 and d != 0:
                    self.ax.append(self.vars[(aid, b)] == self.vars[(aid, a)] * self.apow(aid, d))

    def poly(self, p):
        out = []
        for m, c in p.t.items():
            t = rat(c.real if isinstance(c, complex) else c)
            for a, e in m:
                t = t * self.apow(a, e)
            out.append(t)
        if not out:
            return z3.RealVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def path(self, signs):
        cs = []
        for pid, st in signs.items():
            cs.append(self.sign(S.polys[pid], st))
        return cs

    def sign(self, P, st):
        p = self.poly(P)
        if st == frozenset((1,)):
            return p > 0
        if st == frozenset((-1,)):
            return p < 0
        if st == frozenset((0,)):
            return p == 0
        if st == frozenset((0, 1)):
            return p >= 0
        if st == frozenset((0, -1)):
            return p <= 0
        return p != 0

    def order(self):
        """Ascending grids declared by the harness."""
        out = []
        for grp in ORDER['groups']:
            for a, b in zip(grp, grp[1:]):
                if a in self.vars and b in self.vars:
                    out.append(self.vars[a] < self.vars[b])
        return out


ORDER = {'groups': [], 'rank': {}}


def feasible(signs, extra=(), timeout=1500):
    """unsat -> False; sat/unknown -> True"""
    if not signs:
        return True
    s = z3.Solver()
    s.set('timeout', timeout)
    z = Z()
    cs = z.path(signs)
    s.add(*cs)
    s.add(*z.ax)
    s.add(*z.order())
    r = solve(s, 'nra')
    ST.nra += 1
    return r != z3.unsat


# ---------------------------------------------------------------------------------------------- paths
class Path:
    def __init__(self, prefix, maxforks=60):
        self.prefix = prefix
        self.taken = []
        self.signs = {}
        self.pending = []
        self.maxforks = maxforks
        self.zero_subst = {}

    def fork(self, b):
        """Decide the truth of an indicator polynomial, forking on the sign of one polynomial at a time."""
        while True:
            b = resolve(b)
            if b.is_const():
                return b.cval() != 0
            ids = core.sgn_atoms(b)
            if not ids:
                raise Unsupported('branch on a value that is not a condition')
            pid = S.atoms[ids[0]].data[0]
            kinds = {S.atoms[a].data[1] for a in ids if S.atoms[a].data[0] == pid}
            have = self.signs.get(pid, frozenset((-1, 0, 1)))
            if kinds == {1}:
                opts = [frozenset((1,)), frozenset((0, -1))]
            elif kinds == {-1}:
                opts = [frozenset((0, 1)), frozenset((-1,))]
            else:
                # a test for (in)equality usually shows as both kinds: keep "not zero" together when that decides it
                nz = frozenset((1, -1))
                t = resolve_with(b, pid, nz)
                opts = [nz, frozenset((0,))] if t else [frozenset((1,)), frozenset((-1,)), frozenset((0,))]
            opts = [o & have for o in opts if o & have]
            self.decide(pid, opts)

    def decide(self, pid, opts):
        i = len(self.taken)
        if len(opts) == 1:
            self.signs[pid] = opts[0]
            return
        if i < len(self.prefix):
            c = self.prefix[i]
            self.taken.append(c)
            self.signs[pid] = opts[c]
            return
        if i >= self.maxforks:
            raise Unsupported('too many symbolic branches on one path')
        ok = []
        for n, o in enumerate(opts):
            if feasible(dict(self.signs, **{}) | {pid: o}):
                ok.append(n)
        if not ok:
            raise PathAbort()
        for n in ok[1:]:
            self.pending.append(self.taken + [n])
        self.taken.append(ok[0])
        self.signs[pid] = opts[ok[0]]


def resolve_with(b, pid, st):
    """True if assuming the sign set decides b."""
    p = Path([])
    p.signs = dict(S.path.signs)
    p.signs[pid] = st
    old = S.path
    S.path = p
    try:
        return resolve(b).is_const()
    finally:
        S.path = old


# ---------------------------------------------------------------------------------------------- environment
class Failed(Exception):
    pass


class Obligation:
    __slots__ = ('label', 'kind', 'got', 'want', 'index', 'msg')

    def __init__(self, label, kind, got, want=None, index=(), msg=''):
        self.label, self.kind, self.got, self.want, self.index, self.msg = label, kind, got, want, index, msg


# Ranges the solver decides over, by input name, where they are wider than the range concrete inputs are usually drawn
# from (name without index; None for an end that stays).
WIDE = {}


class Domain:
    __slots__ = ('name', 'lo', 'hi', 'log', 'special', 'group', 'core')

    def __init__(self, name, lo, hi, log, special, group=None):
        self.name, self.log, self.special, self.group = name, log, special, group
        self.core = lo, hi            # usual values
        self.lo, self.hi = lo, hi     # all values
        if '#' not in name:
            a, b = WIDE.get(re.split(r'[\[@]', name)[0], (None, None))
            self.lo, self.hi = lo if a is None else min(a, lo), hi if b is None else max(b, hi)

    def range(self, rng):
        if (self.lo, self.hi) == self.core or rng.random() < 0.8:
            return self.core
        lo, hi = self.lo, self.hi
        return (lo if lo > 0 or not self.log else min(1e-12, self.core[0] * 1e-6)), hi

    def draw(self, rng, p_special=0.15):
        if self.special and rng.random() < p_special:
            return rng.choice(self.special)
        lo, hi = self.range(rng)
        if self.log and lo > 0:
            return math.exp(rng.uniform(math.log(lo), math.log(hi)))
        return rng.uniform(lo, hi)


class Env:
    """What a harness sees; the same harness runs symbolically and concretely."""

    def __init__(self, mode, point=None, rng=None, cfg=None):
        self.mode = mode
        self.sym = mode == 'sym'
        self.point = point
        self.rng = rng
        self.domains = {}
        self.obl = []
        self.fail = []
        self.cfg = cfg or {}
        self.loaders = {}
        self.loaded = set()
        self.env_modules = {}
        self.packages = None
        self.notes = []
        self.scratch = None
        self._uf_vals = {}
        self.unhit = {}               # internal names replaced by the harness that the code has not used yet

    # -- internals replaced by the harness
    def replacing(self, cls, *names):
        """The harness replaces these attributes of a class of the code under test.

        A tree that has no such attribute, or does not use it, cannot be judged through the replacement: undecided."""
        for n in names:
            if not hasattr(cls, n):
                raise Unsupported(f'{cls.__name__} has no {n} for the harness to replace')
            self.unhit[n] = cls.__name__

    def hit(self, name, value=None):
        """To be called by a replacement when it is used."""
        self.unhit.pop(name, None)
        return value

    # -- inputs
    def real(self, name, lo, hi, log=None, special=(), strict=True):
        """A real input.  Symbolically any value in [lo, hi] (open at 0)."""
        if log is None:
            log = lo > 0 and hi / lo > 50
        d = Domain(name, lo, hi, log, list(special))
        self.domains.setdefault(name, d)
        if self.sym:
            strict = strict and d.lo == d.core[0]     # zero belongs to a widened range that starts there
            lo, hi = d.lo, d.hi
            return core.symbol(name, lo=lo, hi=hi, pos=lo > 0 or (lo == 0 and strict and 0 not in special and 0.0 not in special))
        if name not in self.point:
            self.point[name] = d.draw(self.rng, 0.0)
        return self.point[name]

    def arr(self, name, shape, lo, hi, **k):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object if self.sym else float)
        for i in np.ndindex(*shape):
            a[i] = self.real(f'{name}[{",".join(map(str, i))}]', lo, hi, **k)
        return a.view(SymArray) if self.sym else a

    def grid(self, name, n, lo, hi, log=None):
        """n strictly ascending values in [lo, hi]."""
        if log is None:
            log = lo > 0 and hi / lo > 50
        names = [f'{name}[{i}]' for i in range(n)]
        for i, nm in enumerate(names):
            d = self.domains.setdefault(nm, Domain(nm, lo, hi, log, [], (name, n)))
        if self.sym:
            lo, hi = d.lo, d.hi
            a = np.empty(n, dtype=object)
            ids = []
            for i, nm in enumerate(names):
                a[i] = core.symbol(nm, lo=lo, hi=hi, pos=lo > 0)
                ids.append(S.syms[nm].id)
            if ids not in ORDER['groups']:
                ORDER['groups'].append(ids)
                for r, x in enumerate(ids):
                    ORDER['rank'][x] = (name, r)
            return a.view(SymArray)
        if names[0] not in self.point:
            for nm, v in zip(names, draw_grid(self.rng, n, lo, hi, log)):
                self.point[nm] = v
        return np.array([self.point[nm] for nm in names])

    def option(self, name, documented, files=()):
        """An option string: symbolically any string at all (see symx.option)."""
        from . import option
        pool = list(documented)
        pool += [c for c in option.constants([os.path.join(loader.REPO, f) for f in files]) if c not in pool]
        code = self.real(name, -1.0, float(len(pool)), log=False, special=[float(i) for i in range(len(pool))])
        if self.sym:
            return option.SymStr(code, pool)
        r = round(code)
        return pool[int(r)] if abs(code - r) < 1e-9 and 0 <= r < len(pool) else f'unlisted_{code:.3f}'

    def accepts(self, f):
        """Whether f() completes without an error."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f()
        except Unsupported:
            raise
        except Exception:
            return False
        return True

    def const(self, x):
        return x

    @property
    def np(self):
        return self.loader().library('numpy')

    # -- code under test
    def loader(self, fresh=False):
        if 'l' not in self.loaders or fresh:
            self.loaders['l'] = loader.Loader(self.mode, self.env_modules, self.packages)
        return self.loaders['l']

    def load(self, name):
        l = self.loader()
        m = l.load(name)
        self.loaded.update(l.files)
        return m

    # -- library functions for reference formulas
    def simpson(self, y, x=None, dx=1.0, axis=-1):
        if self.sym:
            return stubs.simpson(y, x=x, dx=dx, axis=axis)
        import scipy.integrate
        return scipy.integrate.simpson(y, x=x, dx=dx, axis=axis)

    def erf(self, x):
        if self.sym and isinstance(x, (Sym, SymArray)):
            return arr.elementwise(lambda v: core.fn('erf', lift(v)), x) if isinstance(x, SymArray) else core.fn('erf', x)
        import scipy.special
        return scipy.special.erf(x)

    def lin_interp(self, x, y, q, axis=0, left=None, right=None):
        """Reference piecewise-linear interpolation along axis (extrapolating unless left/right fill values are given)."""
        if self.sym:
            return stubs.interp_linear(x, y, q, axis, left, right)
        x, y, q = np.asarray(x, float), np.moveaxis(np.asarray(y, float), axis, 0), np.asarray(q, float)
        out = np.empty(q.shape + y.shape[1:])
        for k in np.ndindex(q.shape):
            v = q[k] if q.shape else float(q)
            i = min(max(int(np.searchsorted(x, v)) - 1, 0), len(x) - 2)
            t = (v - x[i]) / (x[i + 1] - x[i])
            r = y[i] * (1 - t) + y[i + 1] * t
            if left is not None and v < x[0]:
                r = y[0] if isinstance(left, str) else left
            if right is not None and v > x[-1]:
                r = y[-1] if isinstance(right, str) else right
            out[k] = r
        return np.moveaxis(out, 0, axis) if q.ndim == 1 else out

    def opaque(self, name, args, shape=(), pos=False, lo=-1.0, hi=1.0, log=False):
        """Value(s) of an unknown function of args: uninterpreted symbolically, pseudo-random but deterministic in the
        (numerically rounded) arguments concretely."""
        out = np.empty(shape, dtype=object if self.sym else float)
        if self.sym:
            k = core.key_of(args)
            for i in np.ndindex(*shape) if shape else [()]:
                at = S.atom('uf', (name, ('o', i), k), pos=pos, lo=lo, hi=hi)
                out[i] = Sym.of_atom(at)
            return out.view(SymArray) if shape else out.item()
        import hashlib
        key = f'{name}|{num_key(args)}'
        rng = random.Random(hashlib.sha256(key.encode()).digest())
        for i in np.ndindex(*shape) if shape else [()]:
            out[i] = math.exp(rng.uniform(math.log(lo), math.log(hi))) if (log and lo > 0) else rng.uniform(lo, hi)
        return out if shape else float(out)

    # -- assertions
    def equal(self, label, got, want, scale=None):
        """got equals want (same shape, every element)."""
        if got is None or want is None:
            self.same(label, got is None, want is None)
            return
        if self.sym:
            try:
                g, w = sarr(got), sarr(want)
            except ValueError as e:
                self._bad(label, f'not an array: {e}')
                return
            if g.shape != w.shape:
                self._bad(label, f'shape {g.shape} instead of {w.shape}')
                return
            for i in np.ndindex(g.shape):
                a, b = raw(g)[i], raw(w)[i]
                if isinstance(a, np.ndarray):
                    a = a.item()
                if isinstance(b, np.ndarray):
                    b = b.item()
                if (not isinstance(a, Sym) and not core.is_num(a)) or (not isinstance(b, Sym) and not core.is_num(b)):
                    self.same(label, a, b)
                    continue
                self.obl.append(Obligation(label, 'eq', plain(lift(a)), plain(lift(b)), i))
            return
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object or w.dtype == object:
            try:
                g, w = g.astype(float), w.astype(float)
            except (TypeError, ValueError):
                pass
        if g.shape != w.shape:
            self.fail.append((label, f'shape {g.shape} instead of {w.shape}'))
            return
        if g.size == 0:
            return
        sc = np.nanmax(np.abs(w)) if np.any(np.isfinite(w)) else 0.0
        if scale is not None:
            sc = max(sc, scale)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(g - w) <= RTOL * np.maximum(np.abs(g), np.abs(w)) + 1e-10 * sc)
            bad &= ~((g == w) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            self.fail.append((label, f'at {i}: got {g[i]!r}, expected {w[i]!r}'))

    def holds(self, label, cond, msg=''):
        """A condition (scalar or array) that must be true."""
        if self.sym:
            c = sarr(cond) if isinstance(cond, (np.ndarray, list, tuple, Sym)) else None
            if c is None:
                self.same(label, bool(cond), True)
                return
            for i in np.ndindex(c.shape):
                v = raw(c)[i]
                if isinstance(v, np.ndarray):
                    v = v.item()
                if isinstance(v, Sym):
                    self.obl.append(Obligation(label, 'holds', v, None, i, msg))
                elif not v:
                    self._bad(label, msg or 'condition is false')
            return
        c = np.asarray(cond)
        if not c.all():
            self.fail.append((label, msg or 'condition is false'))

    def le(self, label, a, b, slack=1e-9):
        """a <= b up to rounding."""
        if self.sym:
            self.holds(label, self.np.asarray(a) <= self.np.asarray(b))
        else:
            a, b = np.asarray(a, float), np.asarray(b, float)
            sc = np.maximum(np.abs(a), np.abs(b))
            if not np.all(a <= b + slack * np.maximum(sc, 1e-30)):
                self.fail.append((label, f'{a} <= {b} is false'))

    def same(self, label, got, want):
        """Concrete (non-numeric) equality."""
        ok = False
        try:
            ok = bool(got == want) or got is want
        except Exception:
            ok = got is want
        if not ok:
            self._bad(label, f'got {got!r}, expected {want!r}')
        elif self.sym:
            ST.obligations += 1
            ST.trivial += 1

    def fails(self, label, msg):
        self._bad(label, msg)

    def _bad(self, label, msg):
        if self.sym:
            self.obl.append(Obligation(label, 'false', None, None, (), msg))
        else:
            self.fail.append((label, msg))

    def raises(self, label, f, exc=Exception):
        """f() must raise."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f()
        except Unsupported:
            raise
        except exc:
            if self.sym:
                ST.obligations += 1
                ST.trivial += 1
            return True
        except Exception as e:
            self._bad(label, f'raised {type(e).__name__}: {e} instead of {exc}')
            return False
        self._bad(label, 'no error was raised')
        return False


def num_key(a):
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return '[' + ','.join(num_key(x) for x in a.ravel().tolist()) + ']' + str(a.shape)
        return '[' + ','.join(num_key(x) for x in a.ravel().tolist()) + ']' + str(a.shape)
    if isinstance(a, (list, tuple)):
        return '(' + ','.join(num_key(x) for x in a) + ')'
    if isinstance(a, dict):
        return '{' + ','.join(f'{k}:{num_key(v)}' for k, v in sorted(a.items(), key=lambda t: str(t[0]))) + '}'
    if isinstance(a, (bool, np.bool_)) or a is None or isinstance(a, str):
        return repr(a)
    if core.is_num(a):
        return f'{complex(a).real:.7g}'.replace('-0', '0') if complex(a).imag == 0 else f'{complex(a):.7g}'
    k = getattr(a, '__symkey__', None)
    if k is not None:
        return str(k() if callable(k) else k)
    return getattr(a, '__qualname__', None) or type(a).__qualname__


def draw_grid(rng, n, lo, hi, log):
    if log and lo > 0:
        a, b = math.log(lo), math.log(hi)
    else:
        a, b = lo, hi
    # well separated ascending values
    cuts = sorted(rng.random() for _ in range(n))
    vals = [0.5 * c + 0.5 * (i + rng.random() * 0.5) / n for i, c in enumerate(cuts)]
    vals.sort()
    out = [a + (b - a) * v for v in vals]
    if log and lo > 0:
        out = [math.exp(v) for v in out]
    return out


# grid order knowledge for comparisons
_known_sign = core.known_sign


def known_sign(P):
    r = _known_sign(P)
    if r is not None:
        return r
    if len(P.t) == 2:
        (m1, c1), (m2, c2) = P.t.items()
        if len(m1) == 1 and len(m2) == 1 and m1[0][1] == m2[0][1] and abs(c1 + c2) <= 1e-14 * abs(c1):
            r1, r2 = ORDER['rank'].get(m1[0][0]), ORDER['rank'].get(m2[0][0])
            if r1 and r2 and r1[0] == r2[0]:
                s = 1 if r1[1] > r2[1] else -1
                s = s if c1 > 0 else -s
                return s if m1[0][1] > 0 else -s
    return None


core.known_sign = known_sign


# ---------------------------------------------------------------------------------------------- deciding equalities
def clear_denominators(r, limit=4000):
    """Multiply out the normalised-polynomial atoms (negative and integer powers) of a residual; an equivalent condition
    where the denominators do not vanish."""
    for _ in range(12):
        patoms = {}
        for m in r.t:
            for a, e in m:
                if S.atoms[a].kind == 'poly':
                    patoms.setdefault(a, set()).add(e)
        if not patoms:
            return r
        progressed = False
        for a, es in sorted(patoms.items(), key=lambda t: len(S.polys[S.atoms[t[0]].data].t)):
            # exponents may differ by integers only, to be reducible together
            allx = set(es)
            if any(all(x != a for x, _ in m) for m in r.t):
                allx.add(0)
            lo = min(allx)
            shift = -lo
            # multiply by P^shift: exponents become >= 0
            if all(float(e - lo).is_integer() for e in allx):
                P = S.polys[S.atoms[a].data]
                out = Sym({})
                for m, c in r.t.items():
                    e = next((x for y, x in m if y == a), 0)
                    k = int(round(e - lo))
                    rest = tuple((y, x) for y, x in m if y != a)
                    t = Sym({rest: c})
                    if k:
                        t = core.mul(t, core.ipow(P, k))
                    out = out + t
                    if len(out.t) > limit:
                        raise Unsupported('residual too large to multiply out')
                r = out
                progressed = True
                if not r.t:
                    return r
                break
        if not progressed:
            return r
    return r


def magnitude_filter(r, ref):
    """Drop terms that are rounding residues relative to the given reference coefficients."""
    return r


def lra_query(pairs, bounds=False):
    """One linear-arithmetic query: is there a valuation of the monomials for which some pair differs beyond EPS?"""
    s = z3.Solver()
    s.set('timeout', 60000)
    disj = []
    n = 0
    cache, scale_of = {}, {}
    for g, w in pairs:
        for part in ('re', 'im'):
            monos = set(g.t) | set(w.t)
            lin, mag = [], []
            nz = False
            for m in monos:
                a, b = g.t.get(m, 0.0), w.t.get(m, 0.0)
                a = (a.real if part == 're' else a.imag) if isinstance(a, complex) else (a if part == 're' else 0.0)
                b = (b.real if part == 're' else b.imag) if isinstance(b, complex) else (b if part == 're' else 0.0)
                sc = max(abs(a), abs(b))
                if sc == 0:
                    continue
                nz = True
                if m not in cache:
                    cache[m] = (z3.Real(f'u{n}'), z3.Real(f'v{n}'))
                    s.add(cache[m][0] >= 0, cache[m][1] >= 0)
                    n += 1
                    scale_of[m] = sc
                    if bounds:
                        lo, hi = core.mono_interval(m) if m else (1.0, 1.0)
                        u_, v_ = cache[m]
                        if lo >= 0:
                            s.add(v_ == 0)
                            if lo * sc > 0:
                                s.add(u_ >= _q(lo * sc))
                        if hi <= 0:
                            s.add(u_ == 0)
                            if -hi * sc > 0:
                                s.add(v_ >= _q(-hi * sc))
                        if 0 < hi * sc < 1e250:
                            s.add(u_ <= _q(hi * sc))
                        if 0 < -lo * sc < 1e250:
                            s.add(v_ <= _q(-lo * sc))
                elif bounds and scale_of[m] != sc:
                    cache[m] = None
                    return z3.unknown
                u, v = cache[m]
                d = Fraction(a) / Fraction(sc) - Fraction(b) / Fraction(sc)
                d = Fraction(round(d * 10 ** 15), 10 ** 15)
                if d != 0:
                    lin.append(z3.Q(d.numerator, d.denominator) * (u - v))
                mag.append(u + v)
            if not nz:
                continue
            L = z3.Sum(lin) if lin else z3.RealVal(0)
            M = z3.Sum(mag) * z3.Q(1, int(1 / EPS))
            disj.append(z3.Or(L > M, -L > M))
    if not disj:
        return z3.unsat
    s.add(z3.Or(disj) if len(disj) > 1 else disj[0])
    return solve(s)


def _q(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def equal_under(g, w, signs):
    """Decide g == w on the current path.  Returns ('proved', None) or ('open', {pid: signset} of the failing case)."""
    g, w = resolve(g), resolve(w)
    if lra_query([(g, w)]) == z3.unsat:
        return 'proved', None
    sub = path_substitution(signs)
    if sub:
        g, w = core.subst(g, sub), core.subst(w, sub)
        g, w = resolve(g), resolve(w)
        if lra_query([(g, w)]) == z3.unsat:
            return 'proved', None
    return equal_cases(g, w, dict(signs), 0)


MAXCASE = 14


def equal_cases(g, w, signs, depth):
    r = g - w
    ids = core.sgn_atoms(r)
    if not ids:
        return equal_plain(g, w, signs)
    if depth > MAXCASE:
        return 'open', signs
    pid = min((S.atoms[i].data[0] for i in ids), key=lambda p: (sum(len(m) for m in S.polys[p].t) if all(S.atoms[a].kind == 'sym' for m in S.polys[p].t for a, e in m) else 10 ** 6, 0))
    for sg in (1, -1, 0):
        if pid in signs and sg not in signs[pid]:
            continue
        s2 = dict(signs)
        s2[pid] = frozenset((sg,))
        g2, w2 = core.set_sgn(g, pid, sg), core.set_sgn(w, pid, sg)
        if lra_query([(g2, w2)]) == z3.unsat:
            continue
        if not feasible(s2):
            continue
        if sg == 0:
            g2, w2 = core.drop_zero_powers(g2, pid), core.drop_zero_powers(w2, pid)
            if lra_query([(g2, w2)]) == z3.unsat:
                continue
            sub = path_substitution({pid: s2[pid]})
            if sub:
                g2, w2 = core.subst(g2, sub), core.subst(w2, sub)
                if lra_query([(g2, w2)]) == z3.unsat:
                    continue
        st, case = equal_cases(g2, w2, s2, depth + 1)
        if st != 'proved':
            return st, case
    return 'proved', None


def equal_plain(g, w, signs):
    try:
        r = clear_denominators(g - w)
    except Unsupported:
        return 'open', signs
    if not r.t:
        # confirmed by polynomial identity; let the solver restate it on the cleared forms
        return 'proved', None
    # relative to the multiplied-out sides
    try:
        gg = clear_pair(g, w)
    except Unsupported:
        gg = None
    if gg is not None and lra_query([gg]) == z3.unsat:
        return 'proved', None
    # radicals
    if radical_zero(r):
        return 'proved', None
    g2, w2 = congruent(g, w, signs)
    if g2 is not None and lra_query([(g2, w2)]) == z3.unsat:
        return 'proved', None
    # rounding-level remainders, measured against the declared ranges of the terms
    if len(g.t) + len(w.t) < 400 and lra_query([(g, w)], bounds=True) == z3.unsat:
        return 'proved', None
    return 'open', signs


_cong = {}
_cong_depth = [0]


def congruent(g, w, signs):
    """Merge uninterpreted values of one function whose arguments are provably equal."""
    if _cong_depth[0] > 1:
        return None, None
    gs = {a for m in g.t for a, e in m if S.atoms[a].kind == 'uf'}
    ws = {a for m in w.t for a, e in m if S.atoms[a].kind == 'uf'}
    only_g, only_w = gs - ws, ws - gs
    if not only_g or not only_w or len(only_g) * len(only_w) > 4096:
        return None, None
    env = {}
    _cong_depth[0] += 1
    try:
        for a in sorted(only_g):
            for b in sorted(only_w):
                if same_key(S.atoms[a].data, S.atoms[b].data, signs):
                    env[a] = b
                    break
    finally:
        _cong_depth[0] -= 1
    if not env:
        return None, None
    return core.subst(g, {a: Sym.of_atom(S.atoms[b]) for a, b in env.items()}), w


def same_key(x, y, signs):
    if x == y:
        return True
    if type(x) is not type(y) or not isinstance(x, tuple) or len(x) != len(y):
        return False
    if len(x) == 2 and x[0] == 'p' and y[0] == 'p' and isinstance(x[1], int):
        k = (x[1], y[1], tuple(sorted((p, tuple(sorted(v))) for p, v in signs.items())))
        if k not in _cong:
            _cong[k] = equal_cases(S.polys[x[1]], S.polys[y[1]], signs, 0)[0] == 'proved'
        return _cong[k]
    return all(same_key(p, q, signs) for p, q in zip(x, y))


def clear_pair(g, w, limit=4000):
    """g and w multiplied by the same positive powers of their polynomial atoms."""
    for _ in range(12):
        pat = {}
        for p in (g, w):
            for m in p.t:
                for a, e in m:
                    if S.atoms[a].kind == 'poly':
                        pat.setdefault(a, set()).add(e)
        if not pat:
            return g, w
        done = True
        for a, es in sorted(pat.items(), key=lambda t: len(S.polys[S.atoms[t[0]].data].t)):
            allx = set(es)
            if any(all(x != a for x, _ in m) for p in (g, w) for m in p.t):
                allx.add(0)
            lo = min(allx)
            if not all(float(e - lo).is_integer() for e in allx):
                continue
            P = S.polys[S.atoms[a].data]

            def cl(p):
                out = Sym({})
                for m, c in p.t.items():
                    e = next((x for y, x in m if y == a), 0)
                    t = Sym({tuple((y, x) for y, x in m if y != a): c})
                    k = int(round(e - lo))
                    if k:
                        t = core.mul(t, core.ipow(P, k))
                    out = out + t
                    if len(out.t) > limit:
                        raise Unsupported('too large')
                return out
            g, w = cl(g), cl(w)
            done = False
            break
        if done:
            return g, w
    return g, w


def radical_zero(r):
    """a + b*P^(1/2) == 0 via a^2 == b^2 P (sign agreement checked at sample points by the caller's replay)."""
    halves = set()
    for m in r.t:
        for a, e in m:
            if not isinstance(e, int) and float(e * 2).is_integer() and S.atoms[a].kind == 'poly':
                halves.add(a)
    if len(halves) != 1:
        return False
    h = halves.pop()
    A, B = Sym({}), Sym({})
    for m, c in r.t.items():
        e = next((x for y, x in m if y == h), 0)
        if isinstance(e, int):
            A = A + Sym({m: c})
        else:
            B = B + Sym({tuple(sorted([(y, x) for y, x in m if y != h] + ([(h, core._exp_norm(e - 0.5))] if e != 0.5 else []))): c})
    try:
        P = S.polys[S.atoms[h].data]
        d = clear_denominators(core.ipow(A, 2) - core.mul(core.ipow(B, 2), P))
    except Unsupported:
        return False
    if d.t:
        return False
    # a = +-b sqrt(P): the signs must be opposite wherever both are nonzero
    sa, sb = core.known_sign(A), core.known_sign(B)
    return sa is not None and sb is not None and sa == -sb


def path_substitution(signs):
    """For polynomials known to be zero, eliminate one symbol that occurs linearly."""
    env = {}
    for pid, st in signs.items():
        if st != frozenset((0,)):
            continue
        P = S.polys[pid]
        if env:
            P = core.subst(P, env)
        cand = None
        for m, c in sorted(P.t.items(), key=lambda t: len(t[0])):
            if type(c) is complex:
                continue
            for a, e in m:
                if e != 1 or S.atoms[a].kind != 'sym':
                    continue
                rest = tuple(x for x in m if x[0] != a)
                if rest and not core.mono_pos(rest):
                    continue
                others = [mm for mm in P.t if mm != m] + ([rest] if rest else [])
                if all(S.atoms[a].data not in core.symbols_of(Sym({mm: 1.0})) for mm in others):
                    cand = (a, m, c, rest)
                    break
            if cand:
                break
        if cand is None:
            continue
        a, m, c, rest = cand
        inv = core.mono_pow(rest, -1) if rest else ()
        val = Sym({core.mono_mul(mm, inv): -cc / c for mm, cc in P.t.items() if mm != m})
        env = {k: core.subst(v, {a: val}) for k, v in env.items()}
        env[a] = val
    return env


def decide_holds(b, signs, timeout=20000):
    """Is the {0,1}-valued polynomial b equal to 1 for all values on this path?"""
    b = resolve(b)
    if b.is_const():
        return ('proved', None) if b.cval() != 0 else ('open', signs)
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout)
    e = z.poly(plain(b))
    s.add(e < z3.Q(1, 2))
    s.add(*z.path(signs))
    z.link()
    s.add(*z.ax)
    s.add(*z.order())
    ST.nra += 1
    r = solve(s, 'nra')
    if r == z3.unsat:
        return 'proved', None
    return ('open' if r == z3.sat else 'unknown'), signs


# ---------------------------------------------------------------------------------------------- counterexample points
def sample_point(domains, rng, signs, tries=4000):
    """A concrete input satisfying the sign conditions, or None."""
    conds = [(S.polys[p], st) for p, st in signs.items()]
    best = None
    for t in range(tries):
        pt = draw_point(domains, rng, 0.0 if t % 3 else 0.3)
        if t % 2:
            fix_zero(conds, pt, domains, rng)
        ok, bad = True, 0
        for P, st in conds:
            try:
                v = core.evaluate(P, pt)
            except core.NotEvaluable:
                continue
            if isinstance(v, complex):
                v = v.real
            if st == frozenset((0,)):
                sc = scale_at(P, pt)
                sg = 0 if abs(v) <= 1e-12 * sc else (1 if v > 0 else -1)
            else:
                sg = (v > 0) - (v < 0)
            if sg not in st:
                bad += 1
                ok = False
        if ok:
            return pt
        if best is None or bad < best[0]:
            best = (bad, pt)
    return z3_point(domains, rng, signs)


def scale_at(P, pt):
    tot = 0.0
    for m, c in P.t.items():
        try:
            tot += abs(core.evaluate(Sym({m: c}), pt))
        except core.NotEvaluable:
            return 1.0
    return tot or 1.0


def draw_point(domains, rng, p_special):
    pt = {}
    groups = set()
    for d in domains.values():
        if d.group:
            if d.group in groups:
                continue
            groups.add(d.group)
            name, n = d.group
            for i, v in enumerate(draw_grid(rng, n, *d.range(rng), d.log)):
                pt[f'{name}[{i}]'] = v
        else:
            pt[d.name] = d.draw(rng, p_special)
    return pt


def fix_zero(conds, pt, domains, rng):
    """Solve equality conditions for one of their symbols."""
    for P, st in conds:
        if st != frozenset((0,)):
            continue
        names = [n for n in core.symbols_of(P) if n in domains]
        rng.shuffle(names)
        for n in names:
            d = domains[n]
            lo, hi = d.lo, d.hi

            def f(x):
                q = dict(pt)
                q[n] = x
                return core.evaluate(P, q)
            try:
                a, b = f(lo), f(hi)
                if a == 0:
                    pt[n] = lo
                    break
                if b == 0:
                    pt[n] = hi
                    break
                if a * b > 0:
                    continue
                for _ in range(200):
                    m = 0.5 * (lo + hi)
                    v = f(m)
                    if v == 0:
                        lo = hi = m
                        break
                    if v * a > 0:
                        lo = m
                    else:
                        hi = m
                pt[n] = 0.5 * (lo + hi)
                break
            except (core.NotEvaluable, TypeError, OverflowError):
                continue


def z3_point(domains, rng, signs):
    s = z3.Solver()
    s.set('timeout', 10000)
    z = Z()
    cs = z.path(signs)
    s.add(*cs, *z.ax)
    for n, d in domains.items():
        a = S.syms.get(n)
        if a is not None and a.id in z.vars:
            s.add(z.vars[a.id] >= rat(d.lo), z.vars[a.id] <= rat(d.hi))
    s.add(*z.order())
    if solve(s) != z3.sat:
        return None
    m = s.model()
    pt = draw_point(domains, rng, 0.0)
    for n in domains:
        a = S.syms.get(n)
        if a is not None and a.id in z.vars:
            v = m.eval(z.vars[a.id], model_completion=True)
            try:
                pt[n] = float(v.as_fraction()) if hasattr(v, 'as_fraction') else float(v.approx(20).as_fraction())
            except Exception:
                return None
    return pt


# ---------------------------------------------------------------------------------------------- running a harness
class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'            # ok | violation | error
        self.violations = []          # dicts: label, msg, point
        self.error = None
        self.functions = set()
        self.files = set()
        self.models = set()
        self.stats = {}
        self.wall = 0.0
        self.samples = 0
        self.bounds = ''
        self.known = set()
        self.tried = 0


def run_concrete(h, cfg, point, rng):
    """One run of the real code on concrete inputs; returns (failures, env)."""
    env = Env('num', point=point, rng=rng, cfg=cfg)
    saved = S.path
    ST.replays += 1
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                h(env, **cfg)
            except Skip:
                pass
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = next((f'{f.filename}:{f.lineno}' for f in reversed(tb) if f.filename.startswith(loader.REPO)), '')
                if loc and not stand_in_gap(e, tb):
                    env.fail.append(('exception', f'{type(e).__name__}: {e} at {loc}'))
                else:
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
                    env.fail.append(('exception*', f'{type(e).__name__}: {e}'))
    finally:
        cleanup(env)
        S.path = saved
    if env.unhit:
        # whatever was compared did not go through the harness's replacements: not a verdict on the code
        env.fail[:] = [('exception*', f'{", ".join(env.unhit)} is not used by the code')]
    return env.fail, env


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_DEFS = set()
REPORTED = (ValueError, KeyError)      # what the stand-ins raise where the real thing does


def stand_in_gap(e, tb):
    """Whether an exception says that a stand-in of the harness lacks something, rather than that the code failed."""
    last = tb[-1].filename if tb else ''
    if last.startswith(HERE):
        return not isinstance(e, REPORTED)
    if isinstance(e, AttributeError) and getattr(e, 'obj', None) is not None:
        o = e.obj
        mod = getattr(o if isinstance(o, type) else type(o), '__module__', '') or ''
        if mod.split('.')[0] in ('props', 'symx') or isinstance(o, type(os)) and getattr(o, '__file__', None) is None:
            return True
    if isinstance(e, TypeError):
        m = re.match(r'([\w.<>]+)\(\) (got|takes|missing)', str(e))
        if m:
            if not _DEFS:
                import ast
                for d in ('props', 'symx'):
                    for f in os.listdir(os.path.join(HERE, d)):
                        if f.endswith('.py'):
                            with open(os.path.join(HERE, d, f)) as h:
                                qualnames(ast.parse(h.read()), '', _DEFS)
            return m.group(1) in _DEFS
    return False


def qualnames(node, prefix, out):
    import ast
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            q = prefix + c.name
            out.add(q)
            qualnames(c, q + ('.' if isinstance(c, ast.ClassDef) else '.<locals>.'), out)
        else:
            qualnames(c, prefix, out)


def cleanup(env):
    if env.scratch:
        import shutil
        shutil.rmtree(env.scratch, ignore_errors=True)
        env.scratch = None


class Skip(Exception):
    """Raised by a harness when a concrete point lies outside its assumptions."""


class Coverage:
    def __init__(self):
        self.seen = set()
        self.tool = 4

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.tool, 'verif')
        except ValueError:
            self.tool = None
            return self
        repo = os.path.realpath(loader.REPO)

        def start(code, off):
            if code.co_filename.startswith(loader.REPO) or code.co_filename.startswith(repo):
                self.seen.add(f'{os.path.relpath(code.co_filename, loader.REPO)}:{code.co_qualname}')
            return m.DISABLE
        m.register_callback(self.tool, m.events.PY_START, start)
        m.set_events(self.tool, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        if self.tool is not None:
            m = sys.monitoring
            m.set_events(self.tool, 0)
            m.register_callback(self.tool, m.events.PY_START, None)
            m.free_tool_id(self.tool)


class Enough(Exception):
    """Enough replayed violations of this harness were collected."""


def run_harness(name, h, cfg, seed=1, maxpaths=400, samples=2, budget=600.0, known=()):
    """Symbolic execution of a harness over all paths, decision of every obligation, replay of counterexamples."""
    global ST
    ST = Stats()
    res = Result(name)
    res.known = set(known)
    t0 = time.time()
    rng = random.Random(f'{seed}:{name}')
    S.reset()
    _cong.clear()
    ORDER['groups'], ORDER['rank'] = [], {}
    loader.FILES.clear()
    stubs.LOG.clear()
    work = [[]]
    domains = {}
    seen_viol = {}
    npaths = 0
    nobl = 0
    try:
        while work:
            prefix = work.pop()
            if npaths >= maxpaths:
                raise Unsupported(f'more than {maxpaths} paths')
            if time.time() - t0 > budget:
                raise Unsupported('time budget exhausted')
            path = Path(prefix)
            S.path = path
            env = Env('sym', cfg=cfg)
            exc = None
            with Coverage() as cov:
                try:
                    with warnings.catch_warnings(), np.errstate(all='ignore'):
                        warnings.simplefilter('ignore')
                        h(env, **cfg)
                except PathAbort:
                    work.extend(path.pending)
                    cleanup(env)
                    continue
                except Unsupported:
                    raise
                except RecursionError:
                    raise Unsupported('recursion')
                except Exception as e:
                    exc = e
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
                finally:
                    cleanup(env)
            res.functions |= cov.seen
            res.files |= env.loaded
            domains.update(env.domains)
            work.extend(path.pending)
            npaths += 1
            if exc is not None:
                tb = traceback.extract_tb(exc.__traceback__)
                loc = next((f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb)), '')
                if not confirm(res, h, cfg, domains, rng, dict(path.signs), 'exception', f'{type(exc).__name__}: {exc} ({loc})', seen_viol):
                    raise Unsupported(f'symbolic run raised {type(exc).__name__}: {exc} ({loc}) but the concrete run did not')
                continue
            nobl += len(env.obl)
            decide_all(res, h, cfg, env.obl, path, domains, rng, seen_viol)
        if npaths == 0:
            raise Unsupported('no feasible path: the harness is vacuous')
        ST.paths = npaths
        ST.obligations += nobl
        # encoding validation: the same harness on the real code at concrete points
        S.path = None
        for k in range(samples):
            pt = draw_point(domains, rng, 0.2 if k else 0.0)
            fails, env = run_concrete(h, cfg, dict(pt), rng)
            res.samples += 1
            for label, msg in fails:
                if label == 'exception*':
                    raise Unsupported(f'concrete run failed in the harness: {msg}')
                add_violation(res, seen_viol, label, msg + ' (concrete validation run)', env.point)
        if nobl == 0 and ST.obligations == 0 and not res.violations:
            raise Unsupported('no obligation was generated: the harness is vacuous')
    except Enough:
        ST.obligations += nobl
    except Unsupported as e:
        res.error = str(e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        # the symbolic encoding does not cover this code: look for a concrete witness before giving up
        S.path = None
        try:
            for k in range(6):
                pt = draw_point(domains, rng, 0.3) if domains else {}
                fails, env = run_concrete(h, cfg, dict(pt), rng)
                for label, msg in fails:
                    if label != 'exception*':
                        add_violation(res, seen_viol, label, msg, env.point)
                if res.violations:
                    break
        except Exception:
            pass
    except Exception as e:
        res.error = f'{type(e).__name__}: {e}'
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    S.path = None
    ST.paths = npaths
    res.models = set(stubs.LOG)
    res.stats = ST.d()
    res.wall = time.time() - t0
    res.status = 'violation' if res.violations else ('error' if res.error else 'ok')
    return res


def decide_all(res, h, cfg, obl, path, domains, rng, seen):
    eqs = [o for o in obl if o.kind == 'eq']
    # batched first pass
    i = 0
    open_ = []
    while i < len(eqs):
        batch, size = [], 0
        while i < len(eqs) and (size < 400 or not batch):
            batch.append(eqs[i])
            size += len(eqs[i].got.t) + len(eqs[i].want.t)
            i += 1
        if lra_query([(resolve(o.got), resolve(o.want)) for o in batch]) != z3.unsat:
            open_.extend(batch)
    if open_ and res.tried < 12:
        # the solver has an assignment of the terms: replay a first candidate before the costlier case analysis
        res.tried += 1
        confirm(res, h, cfg, domains, rng, dict(path.signs), open_[0].label, 'differs', seen, tries=1)
    for o in open_:
        enough(res)
        if o.label in seen and seen[o.label] >= 2:
            continue
        st, case = equal_under(o.got, o.want, path.signs)
        if st == 'proved':
            continue
        if not confirm(res, h, cfg, domains, rng, case or dict(path.signs), o.label, f'differs at {o.index}', seen):
            if os.environ.get('VERIF_DEBUG'):
                print('OPEN', o.label, o.index, '\n  got ', core.show(o.got, 30), '\n  want', core.show(o.want, 30),
                      '\n  diff', core.show(resolve(o.got - o.want), 30), '\n  case', [(core.show(S.polys[p]), s) for p, s in (case or {}).items()])
            raise Unsupported(f'obligation {o.label}{o.index} not decided: {core.show(resolve(o.got - o.want), 3)}')
    for o in obl:
        if o.kind != 'eq':
            enough(res)
        if o.kind == 'false':
            if not confirm(res, h, cfg, domains, rng, dict(path.signs), o.label, o.msg, seen):
                raise Unsupported(f'obligation {o.label} fails symbolically ({o.msg}) but not concretely')
        elif o.kind == 'holds':
            st, case = decide_holds(o.got, path.signs)
            if st == 'proved':
                continue
            if not confirm(res, h, cfg, domains, rng, dict(path.signs), o.label, o.msg or f'condition fails at {o.index}', seen, neg=o.got):
                if os.environ.get('VERIF_DEBUG'):
                    print('OPEN', o.label, o.index, core.show(resolve(o.got)))
                raise Unsupported(f'obligation {o.label}{o.index} not decided ({st})')


LIMIT = int(os.environ.get('VERIF_LIMIT', '3'))


def enough(res):
    if sum(v['label'] not in res.known for v in res.violations) >= LIMIT:
        raise Enough


def confirm(res, h, cfg, domains, rng, signs, label, msg, seen, neg=None, tries=12):
    """Search a concrete input for an open obligation and replay it on the real code."""
    saved = S.path
    S.path = None
    try:
        for k in range(tries):
            pt = sample_point(domains, rng, signs, tries=600 if k else 3000) if signs else draw_point(domains, rng, 0.0 if k % 2 == 0 else 0.3)
            if pt is None:
                if k > 3:
                    return False
                continue
            if neg is not None and k < tries - 2:
                # prefer points where the condition evaluates to false
                for _ in range(300):
                    try:
                        if core.evaluate(plain(neg), pt) < 0.5:
                            break
                    except core.NotEvaluable:
                        break
                    q = sample_point(domains, rng, signs, tries=20) if signs else draw_point(domains, rng, 0.3)
                    pt = q or pt
            fails, env = run_concrete(h, cfg, dict(pt), rng)
            fails = [f for f in fails if f[0] != 'exception*']
            if fails:
                for l, m in sorted(fails, key=lambda f: f[0] in res.known)[:3] + [f for f in fails if f[0] in res.known]:
                    add_violation(res, seen, l, m, env.point)
                seen[label] = seen.get(label, 0) + 1
                return True
        return False
    finally:
        S.path = saved


def add_violation(res, seen, label, msg, point):
    seen[label] = seen.get(label, 0) + 1
    if any(v['label'] == label for v in res.violations):
        return
    res.violations.append({'label': label, 'msg': msg, 'point': {k: float(v) for k, v in point.items() if core.is_num(v)}})
