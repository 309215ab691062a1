"""Symbolic real arithmetic used to execute the code under test.

A symbolic number (Sym) is a generalised polynomial: a map from monomials to float (or complex) coefficients.
A monomial is a sorted tuple of (atom id, real exponent).  Atoms are input symbols, normalised multi-term
polynomials (for negative / fractional powers), exp(monomial), log(poly), named functions, uninterpreted functions and
sign indicators (1 where a polynomial is positive / negative, else 0).  The rewriting rules are exact identities of real
arithmetic on the declared domains; coefficients are floats, compared with the relative tolerances below.
"""
import cmath
import math
import numpy as np

DROP = 1e-12      # a sum whose terms cancel to this relative level is a rounding residue
MERGE = 1e-10     # two normalised polynomials whose coefficients agree to this level are the same atom


class Unsupported(Exception):
    """The code under test did something the symbolic executor does not model."""


# ---------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'data', 'pos', 'lo', 'hi', 'integer')

    def __init__(self, id, kind, data, pos=False, lo=-math.inf, hi=math.inf):
        self.id, self.kind, self.data, self.pos, self.lo, self.hi = id, kind, data, pos, lo, hi
        self.integer = False


class Store:
    """All interned atoms and polynomials (reset per harness)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.index = {}
        self.polys = []
        self.pindex = {}
        self.mcache = {}
        self.syms = {}
        self.undef = 0
        self.path = None      # set by the explorer: object with .signs {pid: frozenset of -1,0,1}
        self.fns = {}

    def atom(self, kind, data, pos=False, lo=-math.inf, hi=math.inf):
        key = (kind, data)
        a = self.index.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, data, pos, lo, hi)
            self.atoms.append(a)
            self.index[key] = a
        return a


S = Store()


def _exp_norm(e):
    if type(e) is int:
        return e
    i = round(e)
    if i and abs(e - i) <= 1e-11 and abs(i) < 1000000:
        return int(i)
    r = float('%.12g' % e)
    return int(r) if r == 0 else r


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    key = (m1, m2)
    r = S.mcache.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        if a in d:
            at = S.atoms[a]
            if at.kind == 'sgn':
                continue
            n = d[a] + e
            n = 0 if abs(n) <= 1e-11 * max(abs(d[a]), abs(e)) else _exp_norm(n)
            if n == 0:
                del d[a]
            else:
                d[a] = n
        else:
            d[a] = e
    # a quantity cannot be positive and negative at once
    for a in d:
        at = S.atoms[a]
        if at.kind == 'sgn' and at.data[1] > 0:
            other = S.index.get(('sgn', (at.data[0], -1)))
            if other is not None and other.id in d:
                r = 0
                break
    else:
        r = tuple(sorted(d.items()))
    S.mcache[key] = r
    return r


def mono_pow(m, q):
    return tuple((a, _exp_norm(e * q)) for a, e in m)


def _clean(c):
    if type(c) is complex:
        if abs(c.imag) <= 1e-14 * abs(c.real) or c.imag == 0:
            return c.real
        if abs(c.real) <= 1e-14 * abs(c.imag):
            return complex(0.0, c.imag)
    return c


def add_into(d, m, c, scale=None):
    o = d.get(m)
    if o is None:
        d[m] = c
    else:
        n = o + c
        if abs(n) <= DROP * max(abs(o), abs(c)):
            del d[m]
        else:
            d[m] = n


def is_num(x):
    return isinstance(x, (int, float, complex, np.number, bool, np.bool_))


def num(x):
    """Python number of a numeric scalar."""
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return _clean(complex(x))
    return float(x)


class Sym:
    __slots__ = ('t', '_pid')
    __array_priority__ = 1e6

    def __init__(self, t):
        self.t = t
        self._pid = None

    # -- construction
    @staticmethod
    def const(c):
        c = _clean(c)
        return Sym({(): c} if c != 0 else {})

    @staticmethod
    def of_atom(a, e=1, c=1.0):
        return Sym({((a.id, e),): c})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0.0)

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not o.t:
            return plain(self)
        if not self.t:
            return plain(o)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        d = dict(a)
        for m, c in b.items():
            add_into(d, m, c)
        return Sym(d)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return plain(self)

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return fn('floor', div(self, o))

    def __rfloordiv__(self, o):
        return lift(o).__floordiv__(self)

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self - o * fn('floor', div(self, o))

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is NotImplemented:
            return o
        return power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return power(o, self)

    def __abs__(self):
        return sabs(self)

    # -- comparison
    def __lt__(self, o):
        return compare(self, o, (-1,))

    def __le__(self, o):
        return compare(self, o, (-1, 0))

    def __gt__(self, o):
        return compare(self, o, (1,))

    def __ge__(self, o):
        return compare(self, o, (0, 1))

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return False
        return compare(self, o, (0,))

    def __ne__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return True
        return compare(self, o, (-1, 1))

    def __hash__(self):
        return hash(('Sym', pid_of(self)))

    def __bool__(self):
        if self.is_const():
            return self.cval() != 0
        r = resolve(self)
        if r.is_const():
            return r.cval() != 0
        if isinstance(self, SymBool):
            return S.path.fork(r)
        c = compare(r, Sym({}), (-1, 1))
        return c if isinstance(c, bool) else bool(c)

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        r = resolve(self)
        if r.is_const():
            return float(r.cval())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        return int(self.__float__())

    def __index__(self):
        f = self.__float__()
        if f != int(f):
            raise TypeError('index must be an integer')
        return int(f)

    def __complex__(self):
        if self.is_const():
            return complex(self.cval())
        raise Unsupported('complex() of a symbolic value')

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self), n) if n is not None else round(float(self))
        return fn('round', self) if not n else fn('round', self * 10.0 ** n) / 10.0 ** n

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return fn('floor', self)

    def __ceil__(self):
        return -fn('floor', -self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return show(self)

    # -- numpy scalar protocol
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return re_im(self)[0]

    @property
    def imag(self):
        return re_im(self)[1]

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype(float)

    def conjugate(self):
        return Sym({m: (c.conjugate() if type(c) is complex else c) for m, c in self.t.items()})

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def is_integer(self):
        return self.is_const() and float(self.cval()).is_integer()

    def _asarr(self):
        from .arr import sarr
        return sarr(self)

    def __getitem__(self, i):
        if i is None or i is Ellipsis or i == () or (isinstance(i, tuple) and all(x is None or x is Ellipsis for x in i)):
            r = self._asarr()[i]
            return r
        raise IndexError('invalid index to scalar variable.')

    def reshape(self, *s, **k):
        return self._asarr().reshape(*s, **k)

    def flatten(self):
        return self._asarr().reshape(1)

    ravel = flatten

    def squeeze(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def any(self, *a, **k):
        return self

    all = any

    # -- elementary functions (used by numpy's object loops)
    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def log10(self):
        return slog(self) / math.log(10.0)

    def log2(self):
        return slog(self) / math.log(2.0)

    def log1p(self):
        return slog(self + 1.0)

    def expm1(self):
        return sexp(self) - 1.0

    def sqrt(self):
        return power(self, Sym.const(0.5))

    def sin(self):
        return fn('sin', self)

    def cos(self):
        return fn('cos', self)

    def tan(self):
        return fn('sin', self) / fn('cos', self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import function_dispatch
        return function_dispatch(func, args, kwargs)


class SymBool(Sym):
    __slots__ = ()

    def __invert__(self):
        return tobool(1.0 - self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = asbool(o)
        return tobool(plain(self) + plain(o) - mul(self, o) * 2.0)

    __rxor__ = __xor__

    @property
    def dtype(self):
        return np.dtype(bool)


def tobool(s):
    if s.is_const():
        return bool(s.cval() != 0)
    r = SymBool(s.t)
    return r


def asbool(o):
    """{0,1}-valued Sym of a truth value."""
    if isinstance(o, SymBool):
        return o
    if isinstance(o, Sym):
        r = compare(o, 0.0, (-1, 1))
        return r if isinstance(r, Sym) else Sym.const(1.0 if r else 0.0)
    return Sym.const(1.0 if o else 0.0)


def b_and(a, b):
    return tobool(mul(asbool(a), asbool(b)))


def b_or(a, b):
    a, b = asbool(a), asbool(b)
    return tobool(plain(a) + plain(b) - mul(a, b))


def b_not(a):
    return tobool(1.0 - plain(asbool(a)))


def plain(s):
    return Sym(s.t) if isinstance(s, SymBool) else s


def lift(x):
    if isinstance(x, Sym):
        return x
    if is_num(x):
        c = num(x)
        if isinstance(c, float) and not math.isfinite(c):
            return special(c)
        return Sym.const(c)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def special(c):
    if c != c:
        return undef('nan')
    # infinities are positive constants larger than anything; they only ever appear in discarded branches
    a = S.atom('sym', 'INF', pos=True, lo=1e300, hi=math.inf)
    return Sym.of_atom(a, 1, 1.0 if c > 0 else -1.0)


def undef(why='undef'):
    S.undef += 1
    a = S.atom('sym', f'{why}#{S.undef}')
    return Sym.of_atom(a)


def symbol(name, lo=-math.inf, hi=math.inf, pos=None):
    if pos is None:
        pos = lo > 0 or (lo == 0 and False)
    a = S.atom('sym', name, pos=pos, lo=lo, hi=hi)
    S.syms[name] = a
    return Sym.of_atom(a)


def mul(a, b):
    at, bt = a.t, b.t
    if not at or not bt:
        return Sym({})
    if len(at) == 1:
        (m, c), = at.items()
        if m == ():
            return Sym({k: _clean(v * c) for k, v in bt.items()})
    if len(bt) == 1:
        (m, c), = bt.items()
        if m == ():
            return Sym({k: _clean(v * c) for k, v in at.items()})
    d = {}
    for m1, c1 in at.items():
        for m2, c2 in bt.items():
            m = mono_mul(m1, m2)
            if m == 0:
                continue
            add_into(d, m, _clean(c1 * c2))
    return Sym(d)


def pid_of(s):
    """Interned id of a polynomial (coefficients compared with tolerance)."""
    if s._pid is not None and s._pid[0] is S.polys:
        return s._pid[1]
    key = frozenset(s.t)
    cands = S.pindex.setdefault(key, [])
    for pid in cands:
        t = S.polys[pid].t
        scale = max((abs(c) for c in t.values()), default=0.0)
        if all(abs(c - s.t[m]) <= MERGE * max(abs(c), 1e-3 * scale) for m, c in t.items()):
            s._pid = (S.polys, pid)
            return pid
    pid = len(S.polys)
    S.polys.append(Sym(s.t))
    cands.append(pid)
    s._pid = (S.polys, pid)
    return pid


def mono_pos(m):
    return all(S.atoms[a].pos for a, e in m)


def content(s, only_pos=True):
    """(monomial content, remaining polynomial): s = mono * rest."""
    mins = None
    for m in s.t:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for a in list(mins):
                mins[a] = min(mins[a], d.get(a, 0))
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
    # atoms missing from the first monomials have exponent 0 there
    for a in list(mins):
        for m in s.t:
            if all(x != a for x, _ in m):
                mins[a] = min(mins[a], 0)
                break
    mono = tuple(sorted((a, e) for a, e in mins.items()
                        if e != 0 and S.atoms[a].kind != 'sgn' and (S.atoms[a].pos or not only_pos)))
    if not mono:
        return (), s
    inv = mono_pow(mono, -1)
    return mono, Sym({mono_mul(m, inv): c for m, c in s.t.items()})


def normalise(s, flip, only_pos=True):
    """s = coef * mono * P with P's leading coefficient +-1 (always +1 when flip)."""
    mono, r = content(s, only_pos)
    lead = min(r.t)
    c = r.t[lead]
    k = c if (flip or type(c) is complex) else abs(c)
    return k, mono, Sym({m: _clean(x / k) for m, x in r.t.items()})


def sgn_atoms(s):
    out = []
    for m in s.t:
        for a, e in m:
            if S.atoms[a].kind == 'sgn' and a not in out:
                out.append(a)
    return out


def set_sgn(s, pid, sign):
    """s with the indicators of polynomial pid replaced for the given sign of that polynomial."""
    plus = S.index.get(('sgn', (pid, 1)))
    minus = S.index.get(('sgn', (pid, -1)))
    vals = {}
    if plus is not None:
        vals[plus.id] = 1.0 if sign > 0 else 0.0
    if minus is not None:
        vals[minus.id] = 1.0 if sign < 0 else 0.0
    d = {}
    for m, c in s.t.items():
        keep = []
        zero = False
        for a, e in m:
            v = vals.get(a)
            if v is None:
                keep.append((a, e))
            elif v == 0.0:
                zero = True
                break
        if not zero:
            add_into(d, tuple(keep), c)
    return Sym(d)


def drop_zero_powers(s, pid):
    """s on the set where polynomial pid is zero: terms with a positive power of it vanish."""
    P = S.polys[pid]
    ids = {pid, pid_of(Sym({m: -c for m, c in P.t.items()}))}
    dead = set()

    def zero(a, e):
        at = S.atoms[a]
        if at.kind == 'poly':
            return at.data in ids and e > 0
        if at.kind == 'exp':
            lg = [(b, x) for b, x in at.data if S.atoms[b].kind == 'log' and S.atoms[b].data in ids and x == 1]
            if lg:
                lo, _ = mono_interval(tuple(t for t in at.data if t not in lg))
                return len(lg) == 1 and lo > 0 and e > 0
        return False
    for m in s.t:
        if any(zero(a, e) for a, e in m):
            dead.add(m)
    return Sym({m: c for m, c in s.t.items() if m not in dead}) if dead else s


MAXLIFT = 8


def lift_cases(s, f):
    """f(s) computed case by case over the indicators occurring in s; None if there are none."""
    ids = sgn_atoms(s)
    if not ids:
        return None
    pids = []
    for a in ids:
        p = S.atoms[a].data[0]
        if p not in pids:
            pids.append(p)
    if len(pids) > MAXLIFT:
        return None
    p = pids[0]
    kinds = {S.atoms[a].data[1] for a in ids if S.atoms[a].data[0] == p}
    if kinds == {1}:
        i = indicator(p, 1)
        return mul(i, lift(f(set_sgn(s, p, 1)))) + mul(1.0 - i, lift(f(set_sgn(s, p, 0))))
    if kinds == {-1}:
        i = indicator(p, -1)
        return mul(i, lift(f(set_sgn(s, p, -1)))) + mul(1.0 - i, lift(f(set_sgn(s, p, 0))))
    ip, im = indicator(p, 1), indicator(p, -1)
    return (mul(ip, lift(f(set_sgn(s, p, 1)))) + mul(im, lift(f(set_sgn(s, p, -1))))
            + mul(1.0 - ip - im, lift(f(set_sgn(s, p, 0)))))


def indicator(pid, sign):
    known = S.path.signs.get(pid) if S.path is not None else None
    if known is not None:
        if sign not in known:
            return Sym({})
        if known == frozenset((sign,)):
            return Sym.const(1.0)
    a = S.atom('sgn', (pid, sign), lo=0.0, hi=1.0)
    S.atom('sgn', (pid, -sign), lo=0.0, hi=1.0)
    return Sym.of_atom(a)


def ipow(s, n):
    r = Sym.const(1.0)
    b = s
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def power(b, q):
    if q.is_const():
        return cpow(b, q.cval())
    lifted = lift_cases(q, lambda x: power(b, x))
    if lifted is not None:
        return lifted
    if b.is_const():
        c = b.cval()
        if type(c) is complex:
            return undef('cpow')
        if c == 1.0:
            return Sym.const(1.0)
        if c == 0.0:
            lo, hi = interval(q)
            if lo > 0:
                return Sym({})
            p, z = sgn_of(q), None
            return plain(lift(z_ind(q, 0))) + mul(lift(z_ind(q, -1)), undef('inf'))
        if c < 0:
            return undef('negpow')
        return sexp(q * math.log(c))
    lifted = lift_cases(b, lambda x: power(x, q))
    if lifted is not None:
        return lifted
    return sexp(mul(q, slog(b)))


def z_ind(q, sign):
    return compare(q, 0.0, (sign,))


def cpow(b, q):
    if type(q) is complex:
        if b.is_const():
            return Sym.const(complex(b.cval()) ** q)
        return sexp(mul(Sym.const(q), slog(b)))
    if q == 0:
        return Sym.const(1.0)
    if q == 1:
        return plain(b)
    if b.is_const():
        c = b.cval()
        if c == 0:
            if q > 0:
                return Sym({})
            return undef('inf')
        try:
            r = c ** q
        except (OverflowError, ZeroDivisionError):
            return undef('overflow')
        if type(c) is not complex and type(r) is complex:
            return undef('nan')
        return Sym.const(r)
    integer = float(q).is_integer()
    if integer and q > 0 and (len(b.t) == 1 or len(b.t) ** q <= 60 or (q == 2 and len(b.t) <= 60)):
        return ipow(b, int(q))
    lifted = lift_cases(b, lambda x: cpow(x, q))
    if lifted is not None:
        return lifted
    if len(b.t) == 1:
        (m, c), = b.t.items()
        if integer:
            try:
                return Sym({mono_pow(m, q): _clean(c ** int(q))})
            except (OverflowError, ZeroDivisionError):
                return undef('overflow')
        if type(c) is not complex and c > 0:
            posm = tuple((a, e) for a, e in m if S.atoms[a].pos)
            rest = tuple((a, e) for a, e in m if not S.atoms[a].pos)
            if not rest:
                return Sym({mono_pow(posm, q): c ** q})
            at = patom(Sym({rest: 1.0}))
            return Sym({mono_mul(mono_pow(posm, q), ((at.id, _exp_norm(q)),)): c ** q})
        k, mono, P = normalise(b, False)
        at = patom(P)
        if type(k) is complex:
            return undef('cpow')
        return Sym({mono_mul(mono_pow(mono, q), ((at.id, _exp_norm(q)),)): k ** q})
    k, mono, P = normalise(b, integer, only_pos=not integer)
    if not integer and type(k) is complex:
        return undef('cpow')
    at = patom(P)
    return Sym({mono_mul(mono_pow(mono, q), ((at.id, _exp_norm(q)),)): _clean(k ** (int(q) if integer else q))})


def patom(P):
    """Atom standing for the normalised polynomial P."""
    if len(P.t) == 1:
        (m, c), = P.t.items()
        if c == 1.0 and len(m) == 1 and m[0][1] == 1 and S.atoms[m[0][0]].pos:
            return S.atoms[m[0][0]]
    pid = pid_of(P)
    lo, hi = interval(P)
    return S.atom('poly', pid, pos=lo > 0 or (lo == 0 and _strict_pos(P)), lo=lo, hi=hi)


def _strict_pos(P):
    """Sum of non-negative terms with at least one strictly positive one."""
    ok = False
    for m, c in P.t.items():
        if type(c) is complex:
            return False
        if mono_pos(m):
            if c <= 0:
                return False
            ok = True
        else:
            lo, hi = mono_interval(m)
            if c * (lo if c > 0 else hi) < 0:
                return False
    return ok


def div(a, b):
    if b.is_const():
        c = b.cval()
        if c == 0:
            return undef('inf') if a.t else undef('nan')
        return Sym({m: _clean(x / c) for m, x in a.t.items()})
    if not a.t:
        return Sym({})
    # proportional polynomials
    if len(a.t) == len(b.t) and len(a.t) > 1 and not sgn_atoms(b):
        la, lb = min(a.t), min(b.t)
        q = mono_mul(la, mono_pow(lb, -1))
        if q != 0:
            k = a.t[la] / b.t[lb]
            if all(abs(a.t.get(mono_mul(m, q), 0) - c * k) <= MERGE * abs(c * k) for m, c in b.t.items()):
                return Sym({q: _clean(k)})
    return mul(a, cpow(b, -1))


def unfold(s):
    """Multiply out sums that appear as factors with a positive integer exponent (such as the square of a square root)."""
    hit = False
    out = Sym({})
    for m, c in s.t.items():
        big = [(a, e) for a, e in m if S.atoms[a].kind == 'poly' and e > 0 and float(e).is_integer() and e <= 3 and len(S.polys[S.atoms[a].data].t) ** e <= 60]
        if not big:
            out = out + Sym({m: c})
            continue
        hit = True
        rest = tuple((a, e) for a, e in m if (a, e) not in big)
        f = Sym({rest: c})
        for a, e in big:
            f = mul(f, ipow(S.polys[S.atoms[a].data], int(e)))
        out = out + f
    return unfold(out) if hit else s


def sexp(s):
    s = unfold(s)
    lifted = lift_cases(s, sexp)
    if lifted is not None:
        return lifted
    mono = ()
    coef = 1.0
    for m, c in s.t.items():
        if m == ():
            try:
                coef *= cmath.exp(c) if type(c) is complex else math.exp(c)
            except OverflowError:
                return undef('overflow')
            if coef == 0:
                return Sym({})
            continue
        if type(c) is complex:
            if c.real:
                mono = mono_mul(mono, _exp_atom(m, c.real))
            # exp(i x) = cos x + i sin x
            x = Sym({m: c.imag})
            ph = fn('cos', x) + mul(Sym.const(1j), fn('sin', x))
            rest = Sym({k: v for k, v in s.t.items() if k != m})
            return mul(mul(sexp(rest), ph), Sym({_exp_atom(m, c.real): 1.0}) if c.real else Sym.const(1.0))
        mono = mono_mul(mono, _exp_atom(m, c))
    return Sym({mono: _clean(coef)})


def _exp_atom(m, c):
    """monomial equal to exp(c*m)"""
    if len(m) == 1 and m[0][1] == 1 and S.atoms[m[0][0]].kind == 'log':
        p = S.polys[S.atoms[m[0][0]].data]
        (pm, pc), = list(p.t.items())[:1]
        if len(p.t) == 1 and pc == 1.0:
            return mono_pow(pm, c)
        at = patom(p)
        return ((at.id, _exp_norm(c)),)
    lo, hi = mono_interval(m)
    a = S.atom('exp', m, pos=True, lo=_safe_exp(lo), hi=_safe_exp(hi))
    return ((a.id, _exp_norm(c)),)


def _safe_exp(x):
    if x > 700:
        return math.inf
    if x < -700:
        return 0.0
    return math.exp(x)


def slog(s):
    if s.is_const():
        c = s.cval()
        if type(c) is complex:
            return Sym.const(cmath.log(c))
        if c == 0:
            return undef('-inf')
        if c < 0:
            return undef('nan')
        return Sym.const(math.log(c))
    lifted = lift_cases(s, slog)
    if lifted is not None:
        return lifted
    k, mono, P = normalise(s, False)
    if type(k) is complex:
        return undef('clog')
    out = Sym.const(math.log(k))
    for a, e in mono:
        out = out + _log_atom(S.atoms[a]) * e
    if len(P.t) == 1:
        (m, c), = P.t.items()
        if c == 1.0:
            if m == ():
                return out
            pos = [(a, e) for a, e in m if S.atoms[a].pos]
            rest = tuple((a, e) for a, e in m if not S.atoms[a].pos)
            for a, e in pos:
                out = out + _log_atom(S.atoms[a]) * e
            if not rest:
                return out
            g = rest[0][1]
            if len(rest) == 1 and not (float(g).is_integer() and int(g) % 2 == 0):
                return out + _log_poly(Sym({((rest[0][0], 1),): 1.0})) * g
            return out + _log_poly(Sym({rest: 1.0}))
    return out + _log_poly(P)


def _log_atom(a):
    if a.kind == 'exp':
        return Sym({a.data: 1.0})
    if a.kind == 'poly':
        return _log_poly(S.polys[a.data])
    return _log_poly(Sym.of_atom(a))


def _log_poly(P):
    lo, hi = interval(P)
    llo = math.log(lo) if lo > 0 else -math.inf
    lhi = math.log(hi) if 0 < hi < math.inf else math.inf
    a = S.atom('log', pid_of(P), lo=llo, hi=lhi)
    if llo > 0:
        a.pos = True
    return Sym.of_atom(a)


def re_im(s):
    r, i = {}, {}
    for m, c in s.t.items():
        if type(c) is complex:
            if c.real:
                r[m] = c.real
            i[m] = c.imag
        else:
            r[m] = c
    return Sym(r), Sym(i)


def sabs(s):
    r, i = re_im(s)
    if i.t:
        return cpow(ipow(r, 2) + ipow(i, 2), 0.5) if r.t else sabs(i)
    sg = sgn_of(r)
    return mul(r, sg)


def sgn_of(s):
    """sign(s) as an indicator polynomial"""
    p = compare(s, 0.0, (1,))
    m = compare(s, 0.0, (-1,))
    return plain(lift(p)) - plain(lift(m))


def smin(a, b):
    a, b = lift(a), lift(b)
    if a.t == b.t:
        return plain(a)
    return _blend(lift(compare(a, b, (-1,))), a, b)


def smax(a, b):
    a, b = lift(a), lift(b)
    if a.t == b.t:
        return plain(a)
    return _blend(lift(compare(a, b, (1,))), a, b)


def _blend(c, a, b):
    """a where c, else b.  When a and b coincide on the border of c, the strictness and direction of c do not matter and one
    canonical form is used."""
    c, b_ = plain(c), plain(b)
    D = plain(a) - b_
    if 1 <= len(c.t) <= 2 and D.t:
        k0 = c.t.get((), 0.0)
        at = [(m, v) for m, v in c.t.items() if m]
        if len(at) == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1 and S.atoms[at[0][0][0][0]].kind == 'sgn' and (k0, at[0][1]) in ((0.0, 1.0), (1.0, -1.0)):
            pid, sg = S.atoms[at[0][0][0][0]].data
            if all(type(v) is not complex for v in D.t.values()):
                _, _, Q = normalise(D, False)
                if Q.t and Q.t[min(Q.t)] < 0:
                    Q = -Q
                if sg != 0 and len(Q.t) > 1 and pid_of(Q) == pid:
                    up = (sg > 0) == (k0 == 0.0)       # condition is "positive" (strict or not)
                    ind = indicator(pid, 1)
                    return b_ + mul(ind, D) if up else plain(a) - mul(ind, D)
    return b_ + mul(c, D)


def swhere(c, a, b):
    if isinstance(c, Sym) and not c.is_const():
        c = asbool(c)
        a_, b_ = lift(a), lift(b)
        if a_ is NotImplemented or b_ is NotImplemented:
            return a if bool(c) else b
        r = _blend(c, a_, b_)
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
            return tobool(r)
        return r
    return a if bool(c) else b


# ---------------------------------------------------------------------------------------------- functions
def _fn_eval(name, args):
    return FN[name][0](*args)


def _gamma(x):
    return math.gamma(x)


FN = {
    'erf': (math.erf, 'odd', (-1.0, 1.0)),
    'erfc': (math.erfc, None, (0.0, 2.0)),
    'sin': (math.sin, 'odd', (-1.0, 1.0)),
    'cos': (math.cos, 'even', (-1.0, 1.0)),
    'arcsin': (math.asin, 'odd', (-2.0, 2.0)),
    'arccos': (math.acos, None, (0.0, 3.2)),
    'arctan': (math.atan, 'odd', (-1.5707963267948966, 1.5707963267948966)),
    'tanh': (math.tanh, 'odd', (-1.0, 1.0)),
    'sinh': (math.sinh, 'odd', None),
    'cosh': (math.cosh, 'even', (1.0, math.inf)),
    'gamma': (_gamma, None, None),
    'floor': (math.floor, None, None),
    'round': (round, None, None),
    'arctan2': (math.atan2, None, (-3.2, 3.2)),
}


def fn(name, *args):
    args = [lift(a) for a in args]
    if all(a.is_const() for a in args):
        try:
            return Sym.const(_fn_eval(name, [float(a.cval()) for a in args]))
        except (ValueError, OverflowError):
            return undef(name)
    f, par, bnd = FN[name]
    if name == 'gamma' and len(args) == 1:
        pass
    if len(args) == 1:
        lifted = lift_cases(args[0], lambda x: fn(name, x))
        if lifted is not None:
            return lifted
    coef = 1.0
    if par and len(args) == 1:
        a = args[0]
        lead = a.t[min(a.t)]
        if type(lead) is not complex and lead < 0:
            args = [-a]
            if par == 'odd':
                coef = -1.0
    lo, hi = bnd or (-math.inf, math.inf)
    if name == 'gamma':
        l, h = interval(args[0])
        if 0.1 < l and h < 30:
            lo, hi = (0.885 if l <= 1.4617 <= h else min(math.gamma(l), math.gamma(h)) * (1 - 1e-12)), max(math.gamma(l), math.gamma(h)) * (1 + 1e-12)
    at = S.atom('fn', (name,) + tuple(pid_of(a) for a in args), pos=lo > 0, lo=lo, hi=hi)
    return Sym.of_atom(at, 1, coef)


def uf(name, args, pos=False, lo=-math.inf, hi=math.inf, fact=None):
    """Uninterpreted value: the same arguments give the same value, nothing else is known."""
    at = S.atom('uf', (name,) + tuple(key_of(a) for a in args), pos=pos, lo=lo, hi=hi)
    return Sym.of_atom(at)


def key_of(a):
    """Hashable identity of an argument (tolerant for numbers)."""
    if isinstance(a, Sym):
        a = resolve(a)
        return ('p', pid_of(plain(a)))
    if isinstance(a, np.ndarray):
        return ('a', a.shape, tuple(key_of(x) for x in a.ravel().tolist()))
    if isinstance(a, (bool, np.bool_)) or a is None or isinstance(a, (str, bytes)):
        return ('o', a)
    if is_num(a):
        return ('p', pid_of(Sym.const(num(a))))
    if isinstance(a, (list, tuple)):
        return ('l', tuple(key_of(x) for x in a))
    if isinstance(a, dict):
        return ('d', tuple(sorted((str(k), key_of(v)) for k, v in a.items())))
    if isinstance(a, (set, frozenset)):
        return ('s', tuple(sorted(key_of(x) for x in a)))
    k = getattr(a, '__symkey__', None)
    if k is not None:
        return ('k', k() if callable(k) else k)
    return ('i', getattr(a, '__qualname__', None) or id(a))


# ---------------------------------------------------------------------------------------------- intervals
def mono_interval(m):
    lo, hi = 1.0, 1.0
    for a, e in m:
        at = S.atoms[a]
        l, h = at.lo, at.hi
        if at.pos or l >= 0:
            l = max(l, 0.0)
            try:
                pl = l ** e if l > 0 or e > 0 else math.inf
            except OverflowError:
                pl = math.inf
            try:
                ph = (h ** e if h < math.inf else (math.inf if e > 0 else 0.0)) if h > 0 or e > 0 else math.inf
            except OverflowError:
                ph = math.inf
            al, ah = min(pl, ph), max(pl, ph)
        elif float(e).is_integer() and e > 0:
            if e % 2 == 0:
                al = 0.0 if l <= 0 <= h else min(abs(l), abs(h)) ** e
                mx = max(abs(l), abs(h))
                ah = mx ** e if mx < 1e100 else math.inf
            else:
                al = l ** e if abs(l) < 1e100 else -math.inf
                ah = h ** e if abs(h) < 1e100 else math.inf
        else:
            al, ah = -math.inf, math.inf
        c = [_imul(lo, al), _imul(lo, ah), _imul(hi, al), _imul(hi, ah)]
        lo, hi = min(c), max(c)
    return lo, hi


def _imul(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def interval(s):
    lo = hi = 0.0
    for m, c in s.t.items():
        if type(c) is complex:
            return -math.inf, math.inf
        if m == ():
            lo += c
            hi += c
            continue
        l, h = mono_interval(m)
        if c < 0:
            l, h = h, l
        lo += _imul(c, l)
        hi += _imul(c, h)
        if lo != lo:
            lo = -math.inf
        if hi != hi:
            hi = math.inf
    return lo, hi


def known_sign(P):
    """-1, 0, 1 if the sign follows from the declared domains, else None."""
    if not P.t:
        return 0
    if all(type(c) is not complex for c in P.t.values()):
        if _strict_pos(P):
            return 1
        if _strict_pos(-P):
            return -1
    lo, hi = interval(P)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    return None


# ---------------------------------------------------------------------------------------------- comparison
def compare(a, b, signs):
    a, b = lift(a), lift(b)
    if b is NotImplemented or a is NotImplemented:
        raise TypeError('unorderable types')
    d = plain(a) - plain(b)
    if d.t:
        r, i = re_im(d)
        if i.t:
            if signs == (0,):
                return b_and(compare(r, 0.0, (0,)), compare(i, 0.0, (0,)))
            if signs == (-1, 1):
                return b_or(compare(r, 0.0, signs), compare(i, 0.0, signs))
            d = r
    if d.is_const():
        c = d.cval()
        s = (c > 0) - (c < 0)
        return s in signs
    lifted = lift_cases(d, lambda x: plain(lift(compare(x, 0.0, signs))))
    if lifted is not None:
        return tobool(resolve(lifted))
    d = _unlog(d)
    if d.is_const():
        c = d.cval()
        return ((c > 0) - (c < 0)) in signs
    # rounding-level differences between large numbers are not sign information; keep exact
    k, mono, P = normalise(d, False)
    flipped = False
    lead = P.t[min(P.t)]
    if lead < 0:
        P = -P
        flipped = True
    if flipped:
        signs = tuple(-x for x in signs)
    if len(P.t) == 1:
        # non-positive monomial: normalise exponents (sign depends on parity only)
        (m, c), = P.t.items()
        P = Sym({tuple((a_, (1 if float(e).is_integer() and e % 2 else e)) for a_, e in m): 1.0})
    ks = known_sign(P)
    if ks is not None:
        return ks in signs
    pid = pid_of(P)
    st = frozenset(signs)
    if st == {1}:
        r = indicator(pid, 1)
    elif st == {-1}:
        r = indicator(pid, -1)
    elif st == {0}:
        r = 1.0 - indicator(pid, 1) - indicator(pid, -1)
    elif st == {1, -1}:
        r = indicator(pid, 1) + indicator(pid, -1)
    elif st == {0, 1}:
        r = 1.0 - indicator(pid, -1)
    elif st == {0, -1}:
        r = 1.0 - indicator(pid, 1)
    else:
        return bool(st)
    return tobool(lift(r))


def _unlog(d):
    """A sum of equal-magnitude logarithms and a constant has the sign of the exponentiated difference."""
    if len(d.t) > 6:
        return d
    c0 = None
    for m, c in d.t.items():
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1 or S.atoms[m[0][0]].kind != 'log' or type(c) is complex:
            return d
        if c0 is None:
            c0 = abs(c)
    if c0 is None:
        return d
    try:
        return sexp(d * (1.0 / c0)) - 1.0
    except OverflowError:
        return d


def resolve(s):
    """Replace the indicators decided by the current path."""
    if S.path is None or not S.path.signs:
        return s
    for a in sgn_atoms(s):
        pid = S.atoms[a].data[0]
        known = S.path.signs.get(pid)
        if known is None:
            continue
        if len(known) == 1:
            (sg,) = known
            s = _keep(s, set_sgn(s, pid, sg))
        else:
            sign = S.atoms[a].data[1]
            if sign not in known:
                s = _keep(s, drop_sgn(s, a))
            elif known == frozenset((1, -1)) and sign == -1:
                # I_neg = 1 - I_pos when zero is excluded
                s = _keep(s, replace_atom(s, a, 1.0 - Sym.of_atom(S.atom('sgn', (pid, 1)))))
    return s


def _keep(old, new):
    return SymBool(new.t) if isinstance(old, SymBool) else new


def drop_sgn(s, aid):
    return Sym({m: c for m, c in s.t.items() if all(a != aid for a, _ in m)})


def replace_atom(s, aid, val):
    out = Sym({})
    rest = {}
    for m, c in s.t.items():
        hit = None
        for a, e in m:
            if a == aid:
                hit = e
        if hit is None:
            rest[m] = c
        else:
            k = tuple((a, e) for a, e in m if a != aid)
            out = out + mul(Sym({k: c}), cpow(val, hit))
    return out + Sym(rest)


# ---------------------------------------------------------------------------------------------- substitution
def subst(s, env, memo=None):
    """Rebuild s with the symbol atoms in env {atom id: Sym} replaced (everywhere, also inside functions)."""
    if memo is None:
        memo = {}

    def atom(aid):
        if aid in memo:
            return memo[aid]
        a = S.atoms[aid]
        if aid in env:
            r = env[aid]
        elif a.kind == 'sym':
            r = Sym.of_atom(a)
        elif a.kind == 'poly':
            r = subst(S.polys[a.data], env, memo)
        elif a.kind == 'exp':
            r = sexp(subst(Sym({a.data: 1.0}), env, memo))
        elif a.kind == 'log':
            r = slog(subst(S.polys[a.data], env, memo))
        elif a.kind == 'fn':
            r = fn(a.data[0], *[subst(S.polys[p], env, memo) for p in a.data[1:]])
        elif a.kind == 'sgn':
            r = plain(lift(compare(subst(S.polys[a.data[0]], env, memo), 0.0, (a.data[1],))))
        else:
            r = uf_subst(a, env, memo)
        memo[aid] = r
        return r

    out = Sym({})
    for m, c in s.t.items():
        term = Sym.const(c)
        for a, e in m:
            v = atom(a)
            term = mul(term, cpow(v, e) if e != 1 else plain(v))
        out = out + term
    return out


def uf_subst(a, env, memo):
    def k(key):
        if key[0] == 'p':
            return ('p', pid_of(subst(S.polys[key[1]], env, memo)))
        if key[0] in ('l', 's'):
            return (key[0], tuple(k(x) for x in key[1]))
        if key[0] == 'a':
            return ('a', key[1], tuple(k(x) for x in key[2]))
        if key[0] == 'd':
            return ('d', tuple((n, k(x)) for n, x in key[1]))
        return key
    at = S.atom('uf', (a.data[0],) + tuple(k(x) for x in a.data[1:]), pos=a.pos, lo=a.lo, hi=a.hi)
    return Sym.of_atom(at)


def symbols_of(s, acc=None, seen=None):
    """Names of the input symbols occurring in s."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    for m in s.t:
        for aid, _ in m:
            if aid in seen:
                continue
            seen.add(aid)
            a = S.atoms[aid]
            if a.kind == 'sym':
                acc.add(a.data)
            elif a.kind in ('poly', 'log'):
                symbols_of(S.polys[a.data], acc, seen)
            elif a.kind == 'exp':
                symbols_of(Sym({a.data: 1.0}), acc, seen)
            elif a.kind == 'fn':
                for p in a.data[1:]:
                    symbols_of(S.polys[p], acc, seen)
            elif a.kind == 'sgn':
                symbols_of(S.polys[a.data[0]], acc, seen)
            elif a.kind == 'uf':
                def walk(k):
                    if k[0] == 'p':
                        symbols_of(S.polys[k[1]], acc, seen)
                    elif k[0] in ('l', 's'):
                        for x in k[1]:
                            walk(x)
                    elif k[0] == 'a':
                        for x in k[2]:
                            walk(x)
                    elif k[0] == 'd':
                        for _, x in k[1]:
                            walk(x)
                for x in a.data[1:]:
                    walk(x)
    return acc


# ---------------------------------------------------------------------------------------------- evaluation
class NotEvaluable(Exception):
    pass


def evaluate(s, vals, memo=None):
    """Float value of s at a point {symbol name: value}."""
    memo = {} if memo is None else memo

    def atom(aid):
        if aid in memo:
            return memo[aid]
        a = S.atoms[aid]
        k = a.kind
        if k == 'sym':
            if a.data not in vals:
                raise NotEvaluable(a.data)
            r = vals[a.data]
        elif k == 'poly':
            r = ev(S.polys[a.data])
        elif k == 'exp':
            r = math.exp(ev(Sym({a.data: 1.0})))
        elif k == 'log':
            r = math.log(ev(S.polys[a.data]))
        elif k == 'fn':
            r = _fn_eval(a.data[0], [ev(S.polys[p]) for p in a.data[1:]])
        elif k == 'sgn':
            v = ev(S.polys[a.data[0]])
            r = 1.0 if (v > 0 if a.data[1] > 0 else v < 0) else 0.0
        else:
            raise NotEvaluable(a.data[0])
        memo[aid] = r
        return r

    def ev(p):
        tot = 0.0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                v = v * atom(a) ** e
            tot = tot + v
        return tot

    try:
        return ev(s)
    except (ValueError, OverflowError, ZeroDivisionError) as e:
        raise NotEvaluable(str(e))


# ---------------------------------------------------------------------------------------------- display
def show_mono(m):
    return '*'.join(show_atom(S.atoms[a]) + (f'^{e:g}' if e != 1 else '') for a, e in m)


def show_atom(a, depth=0):
    k = a.kind
    if k == 'sym':
        return str(a.data)
    if k == 'poly':
        return f'({show(S.polys[a.data])})'
    if k == 'exp':
        return f'exp({show_mono(a.data)})'
    if k == 'log':
        return f'log({show(S.polys[a.data])})'
    if k == 'fn':
        return f'{a.data[0]}({", ".join(show(S.polys[p]) for p in a.data[1:])})'
    if k == 'sgn':
        return f'[{show(S.polys[a.data[0]])} {">" if a.data[1] > 0 else "<"} 0]'
    return f'{a.data[0]}<{a.id}>'


def show(s, n=8):
    if not s.t:
        return '0'
    out = []
    for i, (m, c) in enumerate(sorted(s.t.items())):
        if i >= n:
            out.append(f'...({len(s.t)} terms)')
            break
        cs = f'{c:.6g}' if type(c) is not complex else str(c)
        out.append(cs if m == () else (show_mono(m) if c == 1 else f'{cs}*{show_mono(m)}'))
    return ' + '.join(out)
