"""Symbolic models of the library functions the code calls.

simpson            linear functional of the integrand; weights from scipy itself for constant (or uniform) grids, otherwise
                   uninterpreted weights determined by the grid
interp1d           linear: exact piecewise-linear formula with scipy's extrapolation rules (grid assumed ascending);
                   other kinds: weights from scipy itself on constant grids, otherwise uninterpreted per node vector
RegularGridInterpolator, gaussian_filter1d, fht, quad, solve_ivp, ... see each class
"""
import math
import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.ndimage
import scipy.special
import scipy.fft
import scipy.fftpack

from . import core
from .core import Sym, Unsupported, lift, uf
from .arr import (SymArray, sarr, raw, wrap, has_sym, to_float, all_const, apply_weights, elementwise, npsum, norm_axis,
                  s_diff, UF as UFUNCS)

LOG = set()      # library functions modelled in this run


def note(name):
    LOG.add(name)


def const_or_sym(x):
    """float array if constant, else SymArray"""
    if x is None:
        return None
    if has_sym(x):
        a = sarr(x)
        if all_const(a):
            return to_float(a)
        return a
    return np.asarray(x)


# ---------------------------------------------------------------------------------------------- integration
_wcache = {}


def simpson_weights(x, n, dx):
    """Weights w with simpson(y) = sum w_i y_i for one 1-d grid."""
    if x is None:
        key = ('dx', n)
        if key not in _wcache:
            _wcache[key] = np.array([scipy.integrate.simpson(r, dx=1.0) for r in np.eye(n)])
        return [w * dx for w in _wcache[key].tolist()]
    x = const_or_sym(x)
    if not isinstance(x, SymArray):
        key = ('x', tuple(np.asarray(x, dtype=float).tolist()))
        if key not in _wcache:
            _wcache[key] = np.array([scipy.integrate.simpson(r, x=np.asarray(x, dtype=float)) for r in np.eye(n)])
        return _wcache[key].tolist()
    d = s_diff(x)
    ratios = [core.div(lift(v), lift(d[0])) for v in d.tolist()] if len(d) else []
    if ratios and all(r.is_const() for r in ratios):
        g = np.concatenate([[0.0], np.cumsum([float(r) for r in ratios])])
        w = np.array([scipy.integrate.simpson(r, x=g) for r in np.eye(n)])
        return [float(v) * lift(d[0]) for v in w]
    return [uf('simpson_w', [i, x]) for i in range(n)]


def simpson(y, x=None, *args, dx=1.0, axis=-1, even=None):
    if args:
        # scipy 1.13: simpson(y, *, x=None, dx, axis) with deprecated positional x
        dx = args[0] if len(args) > 0 else dx
        axis = args[1] if len(args) > 1 else axis
    if not has_sym([y, x, dx]):
        return scipy.integrate.simpson(y, x=x, dx=dx, axis=axis)
    note('scipy.integrate.simpson')
    y = sarr(y)
    ax = axis % y.ndim
    n = y.shape[ax]
    ym = np.moveaxis(y.view(np.ndarray), ax, -1)
    if x is None:
        w = simpson_weights(None, n, dx if not isinstance(dx, np.ndarray) else sarr(dx).item())
        return wrap(_dot(ym, w))
    xa = sarr(x) if has_sym(x) else np.asarray(x)
    if xa.ndim == 1:
        if xa.shape[0] != n:
            raise ValueError('If given, length of x along axis must be the same as y.')
        return wrap(_dot(ym, simpson_weights(xa, n, None)))
    if xa.ndim != y.ndim:
        raise ValueError('If given, shape of x must be 1-D or the same as y.')
    if xa.shape[ax] != n:
        raise ValueError('If given, length of x along axis must be the same as y.')
    xm = np.moveaxis(raw(xa), ax, -1)
    shp = np.broadcast_shapes(xm.shape[:-1], ym.shape[:-1])
    xb = np.broadcast_to(xm, shp + (n,))
    yb = np.broadcast_to(ym, shp + (n,))
    out = np.empty(shp, dtype=object)
    cache = {}
    for k in np.ndindex(shp):
        src = tuple(0 if xm.shape[i] == 1 else k[i] for i in range(len(k)))
        if src not in cache:
            row = xm[src]
            cache[src] = simpson_weights(row.view(SymArray) if row.dtype == object else row, n, None)
        out[k] = _wsum(yb[k], cache[src])
    return wrap(out)


def _wsum(y, w):
    acc = None
    for a, b in zip(y.tolist() if isinstance(y, np.ndarray) else y, w):
        if not isinstance(b, Sym) and b == 0:
            continue
        t = a * b
        acc = t if acc is None else acc + t
    return acc if acc is not None else 0.0


def _dot(ym, w):
    out = np.empty(ym.shape[:-1], dtype=object)
    for k in np.ndindex(out.shape):
        out[k] = _wsum(ym[k], w)
    return out


def quad(func, a, b, args=(), **kw):
    """Definite integral of the integrand as a function of its variable: uninterpreted in the integrand's expression."""
    note('scipy.integrate.quad')
    t = core.symbol('quad_var', lo=1e-300, hi=math.inf, pos=True)
    v = func(t, *args)
    v = sarr(v).item() if isinstance(v, np.ndarray) else v
    return uf('integral', [lift(v), lift(a), lift(b)]), 0.0


class OdeResult:
    def __init__(self, y, t):
        self.y, self.t, self.success, self.status, self.message = y, t, True, 0, ''


def solve_ivp(fun, t_span, y0, method='RK45', t_eval=None, args=None, **kw):
    """ODE solution: uninterpreted function of the right-hand side expression, initial values, span and output times."""
    note('scipy.integrate.solve_ivp')
    t = core.symbol('ode_t', lo=1e-300, hi=math.inf, pos=True)
    n = len(y0)
    ys = sarr([core.symbol(f'ode_y{i}') for i in range(n)])
    rhs = fun(t, ys, *(args or ()))
    rhs = [lift(sarr(r).item() if isinstance(r, np.ndarray) else r) for r in list(rhs)]
    y0 = [lift(v) for v in list(y0)]
    ts = t_eval if t_eval is not None else np.linspace(float(t_span[0]), float(t_span[1]), 5)
    out = np.empty((n, len(ts)), dtype=object)
    for i in range(n):
        for j, tt in enumerate(list(ts)):
            out[i, j] = uf('ode_solution', [i, rhs, y0, list(t_span)[0], tt])
    return OdeResult(out.view(SymArray), ts)


# ---------------------------------------------------------------------------------------------- interpolation
def interp_linear(x, y, xq, axis=0, left=None, right=None):
    """Piecewise-linear interpolation on ascending nodes; left/right: None = extrapolate, 'edge', or a fill value."""
    n = len(x)
    x = const_or_sym(x)
    q = const_or_sym(xq)
    ya = np.moveaxis(raw(sarr(y)), axis, 0)
    tail = ya.shape[1:]
    qs = np.asarray(raw(q))
    out = np.empty(qs.shape + tail, dtype=object)
    xs = raw(x).tolist()
    wc = {}
    for k in np.ndindex(qs.shape):
        qq = qs[k] if qs.ndim else qs.item()
        ck = core.key_of(qq)
        if ck not in wc:
            wc[ck] = linear_weights(xs, qq, left, right)
        w, fillw = wc[ck]
        acc = None
        for i in range(n):
            if not isinstance(w[i], Sym) and w[i] == 0:
                continue
            t = ya[i] * w[i]
            acc = t if acc is None else acc + t
        for fw, fv in fillw:
            if not isinstance(fw, Sym) and fw == 0:
                continue
            fv = raw(sarr(fv)) if isinstance(fv, (np.ndarray, list, tuple)) else fv
            t = np.broadcast_to(np.asarray(fv * fw if not isinstance(fv, np.ndarray) else fv * fw, dtype=object), tail) if tail else lift(fw) * fv
            acc = t if acc is None else acc + t
        out[k] = acc if acc is not None else 0.0
    # result has q's shape in place of the axis
    if tail and qs.ndim != 1:
        out = np.moveaxis(out, list(range(qs.ndim)), [axis % (len(tail) + 1) + i for i in range(qs.ndim)]) if qs.ndim else out
    elif tail:
        out = np.moveaxis(out, 0, axis % (len(tail) + 1))
    return wrap(out) if isinstance(out, np.ndarray) else out


def _i(c):
    """truth value as number or indicator Sym"""
    if isinstance(c, Sym):
        return core.plain(c)
    return 1.0 if c else 0.0


def _b(c):
    return isinstance(c, Sym)


def linear_weights(xs, q, left, right):
    n = len(xs)
    if n == 1:
        return [1.0], []
    w = [0.0] * n
    fill = []

    def seg(i):
        """weights on nodes i, i+1"""
        h = lift(xs[i + 1]) - lift(xs[i])
        t = core.div(lift(q) - lift(xs[i]), h)
        return 1.0 - t, t

    # exact node hits need no branches
    for i, xv in enumerate(xs):
        d = lift(q) - lift(xv)
        if not d.t:
            w[i] = 1.0
            return w, fill
    # selector of segment i: x_i < q <= x_{i+1} (first and last segments extended)
    gt = [None] + [core.compare(q, xs[i], (1,)) for i in range(1, n - 1)] + [None]
    inside = 1.0
    if left is not None:
        below = _i(core.compare(q, xs[0], (-1,)))
        if left == 'edge' if isinstance(left, str) else False:
            w[0] = w[0] + below
        else:
            fill.append((below, left))
        inside = inside - below
    if right is not None:
        above = _i(core.compare(q, xs[n - 1], (1,)))
        if right == 'edge' if isinstance(right, str) else False:
            w[n - 1] = w[n - 1] + above
        else:
            fill.append((above, right))
        inside = inside - above
    for i in range(n - 1):
        lo = 1.0 if i == 0 else _i(gt[i])
        hi = 0.0 if i == n - 2 else _i(gt[i + 1])
        s = (lo - hi) if not (isinstance(lo, Sym) or isinstance(hi, Sym)) else lift(lo) - lift(hi)
        if isinstance(s, Sym) and isinstance(lo, Sym) and isinstance(hi, Sym):
            s = core.mul(lift(lo), 1.0 - lift(hi))
        s = lift(s) * inside if isinstance(s, Sym) or isinstance(inside, Sym) else s * inside
        if isinstance(s, Sym) and s.is_const():
            s = s.cval()
        if not isinstance(s, Sym) and s == 0:
            continue
        a, b = seg(i)
        w[i] = a * s + w[i]
        w[i + 1] = b * s + w[i + 1]
    return [v.cval() if isinstance(v, Sym) and v.is_const() else v for v in w], fill


class interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        note('scipy.interpolate.interp1d')
        self.x = const_or_sym(x)
        self.y = sarr(y) if has_sym(y) else np.asarray(y)
        self.kind, self.axis, self.fill_value, self.bounds_error = kind, axis, fill_value, bounds_error
        if self.x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if self.y.ndim == 0:
            raise ValueError('the y array must have at least one dimension.')
        self.axis = axis % self.y.ndim
        if self.y.shape[self.axis] != len(self.x):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        extr = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if bounds_error is None:
            self.bounds_error = not extr and (isinstance(fill_value, float) and fill_value != fill_value)
        if extr and bounds_error:
            raise ValueError('Cannot extrapolate and raise at the same time.')
        if isinstance(kind, str) and kind not in ('linear', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic', 'previous', 'next', 'nearest-up'):
            raise NotImplementedError(f'{kind} is unsupported: Use fitpack routines for other types.')
        if not isinstance(self.x, SymArray) and not assume_sorted:
            o = np.argsort(self.x, kind='mergesort')
            if not np.array_equal(o, np.arange(len(o))):
                self.x = self.x[o]
                self.y = np.take(raw(self.y), o, axis=self.axis)
                self.y = self.y.view(SymArray) if self.y.dtype == object else self.y

    def _fill(self):
        f = self.fill_value
        if isinstance(f, str):
            return None, None
        if isinstance(f, tuple):
            return f
        return f, f

    def __call__(self, xq):
        left, right = self._fill()
        symx = isinstance(self.x, SymArray)
        q = const_or_sym(xq)
        symq = isinstance(q, SymArray)
        if not symx and not symq:
            if self.bounds_error and np.any((q < self.x[0]) | (q > self.x[-1])):
                raise ValueError('A value in x_new is outside the interpolation range.')
            return self._const_nodes(q, left, right)
        if self.kind not in ('linear', 1, 'slinear'):
            return self._opaque(q)
        if self.bounds_error:
            for v in sarr(q).ravel().tolist():
                if bool(core.compare(v, raw(self.x)[0], (-1,))) or bool(core.compare(v, raw(self.x)[-1], (1,))):
                    raise ValueError('A value in x_new is outside the interpolation range.')
        return interp_linear(self.x, self.y, q, self.axis, left, right)

    def _const_nodes(self, q, left, right):
        n = len(self.x)
        q1 = np.asarray(q, dtype=float)
        flat = q1.ravel()
        f = scipy.interpolate.interp1d(self.x, np.eye(n), kind=self.kind, axis=0, bounds_error=False,
                                       fill_value='extrapolate', assume_sorted=True)
        W = np.asarray(f(flat)).reshape(len(flat), n)
        W[np.abs(W) < 1e-15] = 0.0
        y = np.moveaxis(raw(sarr(self.y)), self.axis, 0)
        r = raw(apply_weights(y, W, 0))
        if left is not None or right is not None:
            r = r.copy() if isinstance(r, np.ndarray) else np.array(r, dtype=object)
            for i, v in enumerate(flat):
                if v < self.x[0]:
                    r[i] = raw(sarr(left)) if isinstance(left, np.ndarray) else left
                elif v > self.x[-1]:
                    r[i] = raw(sarr(right)) if isinstance(right, np.ndarray) else right
        tail = y.shape[1:]
        r = np.asarray(r, dtype=object).reshape(q1.shape + tail)
        nd = q1.ndim
        if tail:
            r = np.moveaxis(r, list(range(nd)), [self.axis + i for i in range(nd)]) if nd else r
        return wrap(r)

    def _opaque(self, q):
        """Non-linear interpolation on a symbolic grid or at a symbolic point: uninterpreted in nodes, values and point."""
        y = np.moveaxis(raw(sarr(self.y)), self.axis, 0)
        tail = y.shape[1:]
        qs = np.asarray(raw(sarr(q)))
        out = np.empty(qs.shape + tail, dtype=object)
        for k in np.ndindex(qs.shape):
            for t in np.ndindex(tail):
                col = y[(slice(None),) + t]
                out[k + t] = uf(f'interp1d_{self.kind}_{self.fill_value if isinstance(self.fill_value, str) else "fill"}',
                                [self.x, col, qs[k] if qs.ndim else qs.item()])
        nd = qs.ndim
        if tail and nd:
            out = np.moveaxis(out, list(range(nd)), [self.axis + i for i in range(nd)])
        return wrap(out)


class InterpolatedUnivariateSpline:
    def __init__(self, x, y, w=None, k=3, ext=0, **kw):
        note('scipy.interpolate.InterpolatedUnivariateSpline')
        self.x, self.y, self.k, self.ext = const_or_sym(x), sarr(y), k, ext

    def __call__(self, q, nu=0, ext=None):
        if not isinstance(self.x, SymArray):
            qc = const_or_sym(q)
            if not isinstance(qc, SymArray):
                n = len(self.x)
                W = np.stack([scipy.interpolate.InterpolatedUnivariateSpline(self.x, e, k=self.k, ext=self.ext)(np.ravel(qc))
                              for e in np.eye(n)], axis=1)
                W[np.abs(W) < 1e-14] = 0.0
                r = apply_weights(self.y, W, 0)
                return r if np.ndim(qc) else sarr(r).ravel()[0]
        return elementwise(lambda v: uf(f'spline{self.k}_{self.ext}', [self.x, self.y, v]), q)


class RegularGridInterpolator:
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=np.nan, **kw):
        note('scipy.interpolate.RegularGridInterpolator')
        self.points = [const_or_sym(p) for p in points]
        self.values = sarr(values)
        self.method, self.bounds_error, self.fill_value = method, bounds_error, fill_value
        for i, p in enumerate(self.points):
            if p.ndim != 1:
                raise ValueError(f'The points in dimension {i} must be 1-dimensional')
            if self.values.shape[i] != len(p):
                raise ValueError(f'There are {len(p)} points and {self.values.shape[i]} values on dimension {i}')
        if method not in ('linear', 'nearest'):
            if method in ('slinear', 'cubic', 'quintic', 'pchip'):
                raise Unsupported(f'RegularGridInterpolator method {method}')
            raise ValueError(f"Method '{method}' is not defined")

    def __call__(self, xi, method=None):
        nd = len(self.points)
        if isinstance(xi, tuple):
            comps = [sarr(c) for c in xi]
            shp = np.broadcast_shapes(*[c.shape for c in comps])
            comps = [np.broadcast_to(raw(c), shp) for c in comps]
        else:
            a = sarr(xi)
            shp = a.shape[:-1]
            comps = [raw(a)[..., i] for i in range(nd)]
        out = np.empty(shp, dtype=object)
        vals = raw(self.values)
        cache = [{} for _ in range(nd)]
        for k in np.ndindex(shp):
            ws = []
            fillcond = []
            for d in range(nd):
                q = comps[d][k] if shp else comps[d].item()
                ck = core.key_of(q)
                if ck not in cache[d]:
                    cache[d][ck] = self._w(raw(self.points[d]).tolist(), q)
                ws.append(cache[d][ck])
                if self.fill_value is not None or self.bounds_error:
                    lo, hi = raw(self.points[d]).tolist()[0], raw(self.points[d]).tolist()[-1]
                    o = _or(core.compare(q, lo, (-1,)), core.compare(q, hi, (1,)))
                    fillcond.append(o)
            acc = 0.0
            nz = [[i for i, w in enumerate(wd) if isinstance(w, Sym) or w != 0] for wd in ws]
            for idx in np.ndindex(*[len(z) for z in nz]):
                ii = tuple(nz[d][i] for d, i in enumerate(idx))
                w = 1.0
                for d in range(nd):
                    w = w * ws[d][ii[d]]
                acc = acc + vals[ii] * w
            for c in fillcond:
                if self.bounds_error:
                    if bool(c):
                        raise ValueError('One of the requested xi is out of bounds')
                else:
                    acc = core.swhere(c, self.fill_value, acc)
            out[k] = acc
        return wrap(out) if shp else out.item()

    def _w(self, xs, q):
        if self.method == 'linear':
            return linear_weights(xs, q, None, None)[0]
        # nearest: index of the segment, then the lower node if the fractional distance is <= 1/2
        n = len(xs)
        if all(not isinstance(v, Sym) for v in xs) and not isinstance(q, Sym):
            w = [0.0] * n
            i = int(np.clip(np.searchsorted(xs, q, side='right') - 1, 0, n - 2))
            t = (q - xs[i]) / (xs[i + 1] - xs[i])
            w[i if t <= 0.5 else i + 1] = 1.0
            return w
        # indicator form: node i is nearest when q lies above the midpoint with i-1 and not above the midpoint with i+1
        up = [core.compare(lift(q) * 2.0, lift(xs[i]) + lift(xs[i + 1]), (1,)) for i in range(n - 1)]
        w = []
        for i in range(n):
            a = 1.0 if i == 0 else _i(up[i - 1])
            b = 0.0 if i == n - 1 else _i(up[i])
            v = lift(a) * (1.0 - lift(b))
            w.append(v.cval() if v.is_const() else v)
        return w


def _or(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.b_or(a, b)
    return bool(a) or bool(b)


def gaussian_filter1d(input, sigma, axis=-1, **kw):
    """Linear filter; weights from scipy for a constant sigma, else uninterpreted weights of (sigma, positions)."""
    if not has_sym([input, sigma]):
        return scipy.ndimage.gaussian_filter1d(input, sigma, axis=axis, **kw)
    note('scipy.ndimage.gaussian_filter1d')
    a = sarr(input)
    n = a.shape[axis]
    s = const_or_sym(sigma)
    if isinstance(s, SymArray):
        W = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                W[i, j] = uf('gauss_w', [i, j, n, sarr(sigma).item(), kw or None])
        # rows sum to one
        return apply_weights_sym(a, W, axis)
    W = np.stack([scipy.ndimage.gaussian_filter1d(e, float(s), **kw) for e in np.eye(n)], axis=1)
    return apply_weights(a, W, axis)


def apply_weights_sym(y, W, axis):
    y = np.moveaxis(raw(sarr(y)), axis, 0)
    out = np.empty((W.shape[0],) + y.shape[1:], dtype=object)
    for q in range(W.shape[0]):
        acc = None
        for i in range(W.shape[1]):
            t = y[i] * W[q, i]
            acc = t if acc is None else acc + t
        out[q] = acc
    return wrap(np.moveaxis(out, 0, axis))


def fht(a, dln, mu, offset=0.0, bias=0.0):
    """Fast Hankel transform: for constant settings the linear map computed by scipy; applied to symbolic samples it is an
    uninterpreted linear functional per output point, factored over a common scale of the input row."""
    if not has_sym([a, dln, mu, offset, bias]):
        return scipy.fft.fht(a, dln, mu, offset=offset, bias=bias)
    note('scipy.fft.fht')
    A = sarr(a)
    n = A.shape[-1]
    rows = raw(A).reshape(-1, n)
    out = np.empty((rows.shape[0], n), dtype=object)
    for r in range(rows.shape[0]):
        row = rows[r].tolist()
        scale, base = common_scale(row)
        key = [base, dln, mu, offset, bias]
        kk = core.key_of(key)
        for j in range(n):
            at = core.S.atom('uf', ('fht', ('o', j), kk))
            out[r, j] = Sym.of_atom(at) * scale
    return wrap(out.reshape(A.shape))


def common_scale(row):
    """Factor out the monomial-and-constant content common to all entries (linearity of the transform)."""
    polys = [lift(v) for v in row]
    nz = [p for p in polys if p.t]
    if not nz:
        return 0.0, [0.0]
    if all(p.is_const() for p in nz):
        k = nz[0].cval()
        return k, [p.cval() / k if p.t else 0.0 for p in polys]
    tot = {}
    for i, p in enumerate(nz):
        for m in p.t:
            tot[m] = 1.0
    if len(tot) == 1:
        m = next(iter(tot))
        k = nz[0].t[m]
        return Sym({m: k}), [(p.t[m] / k) if p.t else 0.0 for p in polys]
    mono, _ = core.content(Sym(tot), only_pos=False)
    inv = core.mono_pow(mono, -1)
    red = [Sym({core.mono_mul(m, inv): c for m, c in p.t.items()}) for p in polys]
    first = next(p for p in red if p.t)
    k = first.t[min(first.t)]
    red = [Sym({m: c / k for m, c in p.t.items()}) for p in red]
    return Sym({mono: k}), red


def fhtoffset(dln, mu, initial=0.0, bias=0.0):
    if has_sym([dln, mu, initial, bias]):
        d = [const_or_sym(v) for v in (dln, mu, initial, bias)]
        if any(isinstance(v, SymArray) for v in d):
            return uf('fhtoffset', [dln, mu, initial, bias])
        return scipy.fft.fhtoffset(*[float(v) for v in d])
    return scipy.fft.fhtoffset(dln, mu, initial=initial, bias=bias)


def _fftpack(name):
    def f(x, n=None, axis=-1, overwrite_x=False):
        real = getattr(scipy.fftpack, name)
        if not has_sym(x):
            return real(x, n=n, axis=axis)
        note('scipy.fftpack.' + name)
        a = sarr(x)
        size = a.shape[axis]
        if n is not None and n != size:
            raise Unsupported('padded transform of a symbolic array')
        W = np.stack([real(e) for e in np.eye(size)], axis=1)
        W[np.abs(W) < 1e-15 * size] = 0.0
        return apply_weights(a, W, axis)
    return f


rfft, irfft = _fftpack('rfft'), _fftpack('irfft')


def erf(x):
    if has_sym(x):
        return elementwise(lambda v: core.fn('erf', v), x)
    return scipy.special.erf(x)


def erfc(x):
    if has_sym(x):
        return elementwise(lambda v: 1.0 - core.fn('erf', v), x)
    return scipy.special.erfc(x)


def gamma(x):
    if has_sym(x):
        return elementwise(lambda v: core.fn('gamma', v) if isinstance(v, Sym) else scipy.special.gamma(v), x)
    return scipy.special.gamma(x)


def binom(n, k):
    if has_sym([n, k]):
        return uf('binom', [n, k])
    return scipy.special.binom(n, k)


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    from .arr import s_cumtrapz
    if has_sym([y, x, dx]):
        return s_cumtrapz(y, x, dx, axis, initial)
    return scipy.integrate.cumulative_trapezoid(y, x, dx, axis, initial)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    from .arr import s_trapezoid
    if has_sym([y, x, dx]):
        return s_trapezoid(y, x, dx, axis)
    return scipy.integrate.trapezoid(y, x, dx, axis)


def interp1d_factory(*a, **k):
    if has_sym(list(a)) or has_sym(k):
        return interp1d(*a, **k)
    return LazyInterp(a, k)


class LazyInterp:
    """Constant nodes and values: scipy itself, unless called at a symbolic point."""

    def __init__(self, a, k):
        self.real = scipy.interpolate.interp1d(*a, **k)
        self.args = (a, k)
        self.x, self.y = self.real.x, self.real.y

    def __call__(self, q):
        if has_sym(q):
            c = const_or_sym(q)
            if not isinstance(c, SymArray):
                return self.real(c)
            a, k = self.args
            return interp1d(*a, **k)(q)
        return self.real(q)
