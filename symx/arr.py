"""Symbolic arrays: an ndarray subclass of dtype object whose elements are numbers or Sym, with numpy's own semantics for
shapes, broadcasting, indexing, reductions and most functions (numpy itself runs on the object arrays), and symbolic
definitions for the functions that need to look inside the elements."""
import math
import builtins
import operator
import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported, S, lift, plain, is_num

OBJ = np.dtype(object)


class SymArray(np.ndarray):
    __array_priority__ = 1e5

    def __new__(cls, a):
        return np.asarray(a, dtype=object).view(cls)

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    # -- indexing
    def _idx(self, i, setting=False):
        if isinstance(i, tuple):
            return tuple(self._idx1(x) for x in i)
        return self._idx1(i)

    @staticmethod
    def _idx1(i):
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, Sym):
            return i.__index__()
        if isinstance(i, np.ndarray) and i.dtype == OBJ:
            return concretise_index(i)
        if isinstance(i, list) and any(isinstance(x, Sym) for x in i):
            return concretise_index(np.array(i, dtype=object))
        return i

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, self._idx(i))
        return r

    def __setitem__(self, i, v):
        if isinstance(i, np.ndarray) and i.dtype == OBJ and i.shape == self.shape and has_symbool(i):
            if np.ndim(v) == 0:
                base = self.view(np.ndarray)
                for k in np.ndindex(self.shape):
                    base[k] = core.swhere(i.view(np.ndarray)[k], scalar(v), base[k])
                return
        np.ndarray.__setitem__(self, self._idx(i), unwrap(v))

    # -- conversions
    def astype(self, dtype, *a, **k):
        d = np.dtype(dtype)
        if d.kind in 'fcO':
            return self.copy()
        if d.kind == 'b':
            return elementwise(lambda x: core.asbool(x) if isinstance(x, Sym) else bool(x), self)
        return np.array([int(x) for x in self.ravel().tolist()], dtype=d).reshape(self.shape)

    @property
    def real(self):
        return elementwise(lambda x: x.real, self)

    @property
    def imag(self):
        return elementwise(lambda x: x.imag if not is_num(x) or isinstance(x, complex) else 0.0, self)

    def conj(self):
        return elementwise(lambda x: x.conjugate(), self)

    conjugate = conj

    def item(self, *a):
        r = np.ndarray.item(self, *a)
        return r

    # -- reductions that numpy's C code would run itself
    def sum(self, *a, **k):
        return npsum(self, *a, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = npsum(self, axis=axis, keepdims=keepdims)
        n = self.size if axis is None else np.prod([self.shape[x] for x in np.atleast_1d(axis)])
        return s / float(n)

    def var(self, axis=None, **k):
        return s_var(self, axis, **k)

    def std(self, axis=None, **k):
        return elementwise(UF['sqrt'], s_var(self, axis, **k))

    def prod(self, axis=None, **k):
        return reduce_fn(core_mul, self, axis, 1.0, k.get('keepdims', False))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(core.smax, self, axis, None, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(core.smin, self, axis, None, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(b_or, self, axis, False, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(b_and, self, axis, True, keepdims)

    def cumsum(self, axis=None, *a, **k):
        x = self.ravel() if axis is None else self
        return wrap(np.frompyfunc(operator.add, 2, 1).accumulate(x.view(np.ndarray), axis=axis or 0, dtype=object))

    def clip(self, min=None, max=None, out=None, **k):
        return s_clip(self, min, max)

    def nonzero(self):
        return np.array([bool(x) for x in self.ravel().tolist()], dtype=bool).reshape(self.shape).nonzero()

    def round(self, decimals=0, out=None):
        return elementwise(lambda x: round(x, decimals) if is_num(x) else x.__round__(decimals), self)

    def argmin(self, axis=None, **k):
        return arg_extreme(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return arg_extreme(self, axis, lambda a, b: a > b)

    def sort(self, axis=-1, **k):
        a = np.sort(self.view(np.ndarray), axis=axis)
        np.ndarray.__setitem__(self, Ellipsis, a)

    def dot(self, b, out=None):
        return wrap(np.dot(raw(self), raw(b)))

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def __deepcopy__(self, memo):
        return self.copy()

    def __matmul__(self, o):
        return function_dispatch(np.matmul, (self, o), {})

    def __rmatmul__(self, o):
        return function_dispatch(np.matmul, (o, self), {})

    def __contains__(self, v):
        return bool((self == v).any())

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel().tolist()[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(self.ravel().tolist()[0])

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')


def core_mul(a, b):
    return a * b


def b_or(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.b_or(a, b)
    return bool(a) or bool(b)


def b_and(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.b_and(a, b)
    return bool(a) and bool(b)


def b_not(a):
    return core.b_not(a) if isinstance(a, Sym) else not a


def b_xor(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.tobool(plain(core.asbool(a)) + plain(core.asbool(b)) - core.mul(core.asbool(a), core.asbool(b)) * 2.0)
    return bool(a) != bool(b)


def scalar(v):
    if isinstance(v, np.ndarray):
        return v.reshape(-1).tolist()[0]
    if isinstance(v, np.generic):
        return v.item()
    return v


def has_symbool(a):
    return any(isinstance(x, (SymBool, bool, np.bool_)) for x in a.ravel().tolist())


def concretise_index(i):
    flat = i.ravel().tolist()
    if all(isinstance(x, (SymBool, bool, np.bool_)) for x in flat) and flat:
        return np.array([bool(x) for x in flat], dtype=bool).reshape(i.shape)
    return np.array([operator.index(x) if not isinstance(x, float) else int(x) for x in flat], dtype=int).reshape(i.shape)


def sarr(x):
    """SymArray of anything (nested lists included)."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return x.astype(object).view(SymArray) if x.dtype != OBJ else x.view(SymArray)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    if isinstance(x, (list, tuple)):
        parts = [sarr(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object).view(SymArray)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        a = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            a[i] = p.view(np.ndarray) if p.ndim else p.view(np.ndarray)[()]
        return a.view(SymArray)
    a = np.empty((), dtype=object)
    a[()] = x
    return a.view(SymArray)


def raw(x):
    """Plain ndarray/scalar for numpy internals."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def unwrap(v):
    if isinstance(v, SymArray):
        return v.view(np.ndarray)
    return v


def wrap(r):
    """Result of a numpy computation on object arrays back to symbolic values."""
    if isinstance(r, np.ndarray):
        if r.dtype == OBJ:
            if r.ndim == 0:
                return wrap0(r.item())
            return r.view(SymArray)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def wrap0(x):
    if isinstance(x, (float, int, complex)) and not isinstance(x, bool):
        return np.float64(x) if not isinstance(x, complex) else np.complex128(x)
    return x


def has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return True
    if depth < 4:
        if isinstance(x, (list, tuple)):
            return any(has_sym(e, depth + 1) for e in x)
        if isinstance(x, dict):
            return any(has_sym(e, depth + 1) for e in x.values())
    return False


def all_const(a):
    return all(is_num(x) or (isinstance(x, Sym) and x.is_const()) for x in a.ravel().tolist())


def to_float(a):
    """Real float array of a constant symbolic array (raises Unsupported otherwise)."""
    if isinstance(a, Sym):
        return float(a)
    if isinstance(a, SymArray):
        flat = a.ravel().tolist()
        if any(isinstance(x, complex) for x in flat):
            return np.array([complex(x) for x in flat]).reshape(a.shape)
        if flat and all(isinstance(x, (bool, np.bool_)) for x in flat):
            return np.array(flat, dtype=bool).reshape(a.shape)
        return np.array([float(x) for x in flat]).reshape(a.shape)
    if isinstance(a, (list, tuple)):
        return type(a)(to_float(x) for x in a)
    return a


def elementwise(f, *arrs):
    arrs = [x if isinstance(x, np.ndarray) else sarr(x) for x in arrs]
    arrs = [np.asarray(raw(x), dtype=object) for x in arrs]
    r = np.frompyfunc(f, len(arrs), 1)(*arrs)
    if isinstance(r, np.ndarray):
        return wrap(r)
    return wrap0(r)


def norm_axis(axis, ndim):
    if isinstance(axis, (int, np.integer)):
        return (int(axis) % ndim,)
    return tuple(int(a) % ndim for a in axis)


def reduce_fn(f, a, axis, initial, keepdims=False, where=None):
    a = sarr(a)
    if a.ndim == 0:
        return a.item()
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = norm_axis(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.view(np.ndarray).transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for k in np.ndindex(out.shape):
        row = b[k].tolist()
        if not row:
            if initial is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            v = initial
        else:
            v = row[0]
            if initial is not None and f in (b_or, b_and):
                v = f(initial, v)
            for x in row[1:]:
                v = f(v, x)
        out[k] = v
    if keepdims:
        out = out.reshape([1 if i in axes else n for i, n in enumerate(a.shape)])
    if out.ndim == 0:
        return wrap0(out.item())
    return out.view(SymArray)


def npsum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    r = reduce_fn(operator.add, a, axis, 0.0, keepdims)
    if initial is not None:
        r = r + initial
    return r


def arg_extreme(a, axis, better):
    if axis is not None and a.ndim > 1:
        b = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(b.shape[:-1], dtype=int)
        for k in np.ndindex(out.shape):
            out[k] = arg_extreme(b[k].view(SymArray), None, better)
        return out
    flat = a.ravel().tolist()
    best = 0
    for i in range(1, len(flat)):
        if bool(better(flat[i], flat[best])):
            best = i
    return best


# ---------------------------------------------------------------------------------------------- ufuncs
def _num2(f):
    return f


def _pw(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.power(lift(a), lift(b))
    return np.float64(a) ** np.float64(b) if not (isinstance(a, complex) or isinstance(b, complex)) else a ** b


def _lf(name, symf):
    real = getattr(np, name)

    def f(x):
        if isinstance(x, Sym):
            return symf(x)
        return real(x)
    return f


def _div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.div(lift(a), lift(b))
    if isinstance(a, complex) or isinstance(b, complex):
        return a / b
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def _sq(x):
    return x * x


def _heav(x, h):
    if isinstance(x, Sym):
        p = plain(lift(core.compare(x, 0.0, (1,))))
        z = plain(lift(core.compare(x, 0.0, (0,))))
        return p + core.mul(z, lift(h))
    if x == 0:
        return h
    return 1.0 if x > 0 else 0.0


def _sign(x):
    return core.sgn_of(x) if isinstance(x, Sym) else float(np.sign(x))


def _min(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.smin(a, b)
    return float(np.minimum(a, b))


def _max(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.smax(a, b)
    return float(np.maximum(a, b))


def _mod(a, b):
    return a % b


def _float_power(a, b):
    return _pw(a, b)


def _cmp(name):
    op = getattr(operator, name)

    def f(a, b):
        r = op(a, b)
        return bool(r) if isinstance(r, np.bool_) else r
    return f


def _logaddexp(a, b):
    return core.slog(core.sexp(lift(a)) + core.sexp(lift(b)))


UF = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': _div, 'true_divide': _div,
    'floor_divide': operator.floordiv, 'negative': operator.neg, 'positive': lambda x: x, 'power': _pw,
    'float_power': _pw, 'remainder': _mod, 'mod': _mod, 'absolute': abs, 'fabs': abs, 'square': _sq,
    'reciprocal': lambda x: _div(1.0, x),
    'exp': _lf('exp', core.sexp), 'log': _lf('log', core.slog),
    'exp2': _lf('exp2', lambda x: core.sexp(x * math.log(2.0))),
    'expm1': _lf('expm1', lambda x: core.sexp(x) - 1.0),
    'log10': _lf('log10', lambda x: core.slog(x) / math.log(10.0)),
    'log2': _lf('log2', lambda x: core.slog(x) / math.log(2.0)),
    'log1p': _lf('log1p', lambda x: core.slog(x + 1.0)),
    'sqrt': _lf('sqrt', lambda x: core.cpow(x, 0.5)), 'cbrt': _lf('cbrt', lambda x: core.cpow(x, 1.0 / 3.0)),
    'sin': _lf('sin', lambda x: core.fn('sin', x)), 'cos': _lf('cos', lambda x: core.fn('cos', x)),
    'tan': _lf('tan', lambda x: core.fn('sin', x) / core.fn('cos', x)),
    'arcsin': _lf('arcsin', lambda x: core.fn('arcsin', x)), 'arccos': _lf('arccos', lambda x: core.fn('arccos', x)),
    'arctan': _lf('arctan', lambda x: core.fn('arctan', x)), 'tanh': _lf('tanh', lambda x: core.fn('tanh', x)),
    'arctan2': lambda a, b: core.fn('arctan2', a, b),
    'sinh': _lf('sinh', lambda x: core.fn('sinh', x)), 'cosh': _lf('cosh', lambda x: core.fn('cosh', x)),
    'minimum': _min, 'fmin': _min, 'maximum': _max, 'fmax': _max, 'heaviside': _heav, 'sign': _sign,
    'less': _cmp('lt'), 'less_equal': _cmp('le'), 'greater': _cmp('gt'), 'greater_equal': _cmp('ge'),
    'equal': _cmp('eq'), 'not_equal': _cmp('ne'),
    'logical_and': b_and, 'logical_or': b_or, 'logical_not': b_not, 'logical_xor': b_xor,
    'bitwise_and': b_and, 'bitwise_or': b_or, 'invert': b_not, 'bitwise_xor': b_xor,
    'isfinite': lambda x: True if isinstance(x, Sym) else bool(np.isfinite(x)),
    'isnan': lambda x: False if isinstance(x, Sym) else bool(np.isnan(x)),
    'isinf': lambda x: False if isinstance(x, Sym) else bool(np.isinf(x)),
    'conjugate': lambda x: x.conjugate(), 'rint': _lf('rint', lambda x: core.fn('round', x)),
    'floor': _lf('floor', lambda x: core.fn('floor', x)), 'ceil': _lf('ceil', lambda x: -core.fn('floor', -x)),
    'hypot': lambda a, b: core.cpow(lift(a) * lift(a) + lift(b) * lift(b), 0.5),
    'degrees': lambda x: x * (180.0 / math.pi), 'rad2deg': lambda x: x * (180.0 / math.pi),
    'radians': lambda x: x * (math.pi / 180.0), 'deg2rad': lambda x: x * (math.pi / 180.0),
    'logaddexp': _logaddexp,
    'erf': lambda x: core.fn('erf', x), 'erfc': lambda x: 1.0 - core.fn('erf', x), 'gamma': lambda x: core.fn('gamma', x),
}
IDENT = {'add': 0.0, 'multiply': 1.0, 'logical_or': False, 'logical_and': True, 'bitwise_or': False, 'bitwise_and': True}


def _coerce(x):
    if isinstance(x, np.ndarray):
        x = raw(x)
        if x.dtype == OBJ:
            return x
        if x.dtype.kind in 'mMSU':
            raise Unsupported(f'array of dtype {x.dtype} mixed with symbolic values')
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return sarr(x).view(np.ndarray)
    a = np.empty((), dtype=object)
    a[()] = x.item() if isinstance(x, np.generic) else x
    return a


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if hasattr(ufunc, 'signature') and ufunc.signature is not None:
        if name == 'matmul' and method == '__call__':
            return wrap(np.matmul(*[_coerce(i) for i in inputs]))
        if name == 'vecdot':
            return npsum(sarr(inputs[0]) * sarr(inputs[1]), axis=-1)
        raise Unsupported(f'generalised ufunc {name}')
    f = UF.get(name)
    if f is None:
        flt = [to_float(i) for i in inputs]      # constants only
        return getattr(ufunc, method)(*flt, **{k: v for k, v in kw.items() if k != 'out'})
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('order', None)
    if method == '__call__':
        ins = [_coerce(i) for i in inputs]
        r = np.frompyfunc(f, len(ins), 1)(*ins)
        r = wrap(r) if isinstance(r, np.ndarray) else wrap0(r)
        if where is not True:
            prev = out[0] if out else None
            if prev is None:
                prev = elementwise(lambda _: core.undef('undef'), r)
            r = s_where(where, r, prev)
        if out is not None:
            return store(out[0], r)
        return r
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        keep = kw.pop('keepdims', False)
        init = kw.pop('initial', None)
        if init is not None and init is np._NoValue:
            init = None
        a = inputs[0]
        if where is not True:
            a = s_where(where, a, IDENT[name])
        r = reduce_fn(f, a, axis, IDENT.get(name), keep)
        if init is not None:
            r = r + init if name == 'add' else f(init, r)
        if out is not None and out[0] is not None:
            return store(out[0], r)
        return r
    if method == 'accumulate':
        axis = kw.pop('axis', 0)
        return wrap(np.frompyfunc(f, 2, 1).accumulate(_coerce(inputs[0]), axis=axis, dtype=object))
    if method == 'outer':
        return wrap(np.frompyfunc(f, 2, 1).outer(_coerce(inputs[0]), _coerce(inputs[1])))
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        idx = SymArray._idx1(idx) if not isinstance(idx, tuple) else tuple(SymArray._idx1(i) for i in idx)
        pos = np.arange(a.size).reshape(a.shape)[idx]
        flat = a.view(np.ndarray)
        vv = np.broadcast_to(_coerce(vals), pos.shape) if vals is not None else None
        for n, p in np.ndenumerate(pos):
            k = np.unravel_index(p, a.shape)
            flat[k] = f(flat[k], vv[n]) if vv is not None else f(flat[k])
        return None
    raise Unsupported(f'ufunc method {name}.{method}')


def store(out, r):
    if isinstance(out, SymArray) or out.dtype == OBJ:
        base = out.view(np.ndarray)
        base[...] = raw(r)
        return out
    out[...] = to_float(sarr(r))
    return out


# ---------------------------------------------------------------------------------------------- functions
def s_where(c, a=None, b=None):
    if a is None and b is None:
        c = sarr(c)
        return c.nonzero()
    return elementwise(lambda c, a, b: core.swhere(c, a, b), c, a, b)


def s_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = elementwise(_max, r, lo)
    if hi is not None:
        r = elementwise(_min, r, hi)
    if out is not None:
        return store(out, r)
    return r


def like(a, shape, fill):
    shp = np.shape(raw(a)) if shape is None else shape
    if isinstance(shp, (int, np.integer)):
        shp = (int(shp),)
    r = np.empty(shp, dtype=object)
    if fill is None:
        for k in np.ndindex(r.shape):
            r[k] = core.undef('undef')
    else:
        fill = raw(fill) if not isinstance(fill, Sym) else fill
        if isinstance(fill, np.ndarray):
            r[...] = fill
        else:
            for k in np.ndindex(r.shape):
                r[k] = fill
    return r.view(SymArray)


def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if isinstance(x, Sym) or isinstance(y, Sym):
            x, y = lift(x), lift(y)
            return core.compare(core.sabs(x - y), lift(atol) + core.sabs(y) * rtol, (-1, 0))
        return bool(np.isclose(x, y, rtol, atol, equal_nan))
    return elementwise(f, a, b)


def s_array_equal(a, b, equal_nan=False):
    try:
        a, b = sarr(a), sarr(b)
    except ValueError:
        return False
    if a.shape != b.shape:
        return False
    return reduce_fn(b_and, sarr(a == b), None, True)


def s_interp(x, xp, fp, left=None, right=None, period=None):
    from .stubs import interp_linear
    return interp_linear(sarr(xp), sarr(fp), x, 0, left='edge' if left is None else left,
                         right='edge' if right is None else right)


def s_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = sarr(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def s_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = sarr(y)
    if x is None:
        d = dx
    else:
        x = sarr(x)
        if x.ndim == 1:
            d = s_diff(x)
            shp = [1] * y.ndim
            shp[axis] = d.shape[0]
            d = d.reshape(shp)
        else:
            d = s_diff(x, axis=axis)
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    return npsum(d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0, axis=axis)


def s_gradient(f, *varargs, axis=None, edge_order=1):
    """numpy.gradient is linear in f for fixed (constant) coordinates."""
    f = sarr(f)
    varargs = [to_float(v) if has_sym(v) else v for v in varargs]
    axes = range(f.ndim) if axis is None else norm_axis(axis, f.ndim)
    outs = []
    for i, ax in enumerate(axes):
        n = f.shape[ax]
        v = varargs[i] if len(varargs) == len(axes) else (varargs[0] if varargs else 1.0)
        W = np.stack([np.gradient(row, v, edge_order=edge_order) for row in np.eye(n)], axis=0)
        outs.append(apply_weights(f, W.T, ax))
    return outs[0] if len(outs) == 1 else outs


def apply_weights(y, W, axis):
    """out[..., q, ...] = sum_i W[q, i] * y[..., i, ...] along axis (zero weights skipped)."""
    y = np.moveaxis(sarr(y).view(np.ndarray), axis, 0)
    W = np.asarray(raw(W))
    out = np.empty((W.shape[0],) + y.shape[1:], dtype=object)
    for q in range(W.shape[0]):
        acc = None
        for i in range(W.shape[1]):
            w = W[q, i]
            if not isinstance(w, Sym) and w == 0:
                continue
            term = y[i] * w if not (isinstance(w, float) and w == 1.0) else y[i]
            acc = term if acc is None else acc + term
        out[q] = acc if acc is not None else 0.0
    return wrap(np.moveaxis(out, 0, axis))


def s_cross_meshgrid(*xi, copy=True, sparse=False, indexing='xy'):
    xi = [sarr(x).reshape(-1) for x in xi]
    idx = np.meshgrid(*[np.arange(len(x)) for x in xi], sparse=sparse, indexing=indexing)
    return [x[i] for x, i in zip(xi, idx)]


def s_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    d = (num - 1) if endpoint else num
    st, sp = sarr(start), sarr(stop)
    if st.ndim == 0 and sp.ndim == 0:
        st, sp = st.item(), sp.item()
    rows = []
    for i in range(num):
        if i == 0:
            rows.append(st + 0.0 * sp if not has_sym(st) else st)
        elif endpoint and i == num - 1:
            rows.append(sp)
        else:
            rows.append(st + (sp - st) * (i / d))
    r = sarr([x for x in rows])
    if axis != 0 and r.ndim > 1:
        r = wrap(np.moveaxis(r.view(np.ndarray), 0, axis))
    if retstep:
        return r, (sp - st) / d
    return r


def s_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    return elementwise(_pw, base, s_linspace(start, stop, num, endpoint, axis=axis))


def s_geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    l = s_linspace(elementwise(UF['log'], start), elementwise(UF['log'], stop), num, endpoint, axis=axis)
    return elementwise(UF['exp'], l)


def s_tile(a, reps):
    a = sarr(a)
    idx = np.tile(np.arange(a.size).reshape(a.shape), reps)
    return a.reshape(-1)[idx]


def s_nan_to_num(x, *a, **k):
    return sarr(x)


def s_searchsorted(a, v, side='left', sorter=None):
    a = sarr(a)
    op = (lambda x, y: x < y) if side == 'left' else (lambda x, y: x <= y)
    def one(q):
        n = 0
        for x in a.tolist():
            if bool(op(x, q)):
                n += 1
            else:
                break
        return n
    if np.ndim(raw(v)) == 0:
        return one(scalar(v) if not isinstance(v, Sym) else v)
    vv = sarr(v)
    return np.array([one(q) for q in vv.ravel().tolist()], dtype=int).reshape(vv.shape)


def s_select(condlist, choicelist, default=0):
    r = default
    for c, v in zip(reversed(condlist), reversed(choicelist)):
        r = s_where(c, v, r)
    return r


def s_piecewise(x, condlist, funclist, *args, **kw):
    r = funclist[-1](x) if len(funclist) > len(condlist) and callable(funclist[-1]) else (
        funclist[-1] if len(funclist) > len(condlist) else 0.0)
    for c, f in zip(reversed(condlist), reversed(funclist[:len(condlist)])):
        r = s_where(c, f(x, *args, **kw) if callable(f) else f, r)
    return r


def s_einsum(*ops, **kw):
    kw.pop('optimize', None)
    ops = [o if isinstance(o, str) else np.asarray(_coerce(o)) for o in ops]
    sub = ops[0]
    if not isinstance(sub, str):
        raise Unsupported('einsum with sublists')
    arrs = ops[1:]
    if '->' not in sub:
        letters = sub.replace(',', '').replace('.', '')
        outl = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
        sub = sub + '->' + ('...' if '...' in sub else '') + outl
    ins, outs = sub.replace(' ', '').split('->')
    ins = ins.split(',')
    if '...' in sub:
        # expand ellipsis into fresh letters
        free = [c for c in 'ABCDEFGHIJKLMNOP' if c not in sub]
        nd = 0
        for t, a in zip(ins, arrs):
            if '...' in t:
                nd = max(nd, a.ndim - len(t.replace('...', '')))
        new = []
        for t, a in zip(ins, arrs):
            if '...' in t:
                k = a.ndim - len(t.replace('...', ''))
                t = t.replace('...', ''.join(free[nd - k:nd]))
            new.append(t)
        ins = new
        outs = outs.replace('...', ''.join(free[:nd]))
    dims = {}
    for t, a in zip(ins, arrs):
        for c, n in zip(t, a.shape):
            dims[c] = max(dims.get(c, 1), n)
    summed = [c for c in dims if c not in outs]
    out = np.empty([dims[c] for c in outs], dtype=object)
    for k in np.ndindex(out.shape):
        env = dict(zip(outs, k))
        acc = 0.0
        for s in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, s))
            term = 1.0
            for t, a in zip(ins, arrs):
                term = term * a[tuple(env[c] if a.shape[i] > 1 else 0 for i, c in enumerate(t))]
            acc = acc + term
        out[k] = acc
    return wrap(out)


def s_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    r = sarr(obj)
    if r.base is not None or r is obj:
        if copy:
            r = r.copy()
    if dtype is not None and np.dtype(dtype).kind not in 'fcO':
        return r.astype(dtype)
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def s_asarray(obj, dtype=None, order=None, **k):
    r = sarr(obj)
    if dtype is not None and np.dtype(dtype).kind not in 'fcO':
        return r.astype(dtype)
    return r


def s_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = sarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = sarr(weights)
    if w.ndim != a.ndim:
        shp = [1] * a.ndim
        shp[axis] = w.shape[0]
        w = w.reshape(shp)
    w = w + 0.0 * a
    return npsum(a * w, axis=axis) / npsum(w, axis=axis)


def s_polyval(p, x):
    r = 0.0
    for c in sarr(p).tolist():
        r = r * x + c
    return r


def s_outer(a, b, out=None):
    a, b = sarr(a).reshape(-1), sarr(b).reshape(-1)
    return a[:, None] * b[None, :]


def s_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = sarr(a)
    n = float(a.size if axis is None else a.shape[axis])
    m = reduce_fn(operator.add, a, axis, 0.0, True) / n
    return ((a - m) * (a - m)).mean(axis=axis, keepdims=keepdims) * (n / (n - ddof))


def s_fromiter(it, dtype=float, count=-1, **k):
    v = list(it)
    return sarr(v if count < 0 else v[:count])


def s_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or (ord == 2 and axis is None and sarr(x).ndim > 1):
        raise core.Unsupported('matrix norm')
    x = sarr(x)
    return elementwise(UF['sqrt'], npsum(x * x, axis=axis, keepdims=keepdims))


def s_histogram(a, bins=10, range=None, density=None, weights=None):
    """numpy's equal-width histogram: last bin closed; equal minimum and maximum widened by one half."""
    import functools
    xs = sarr(a).ravel().tolist()
    if weights is not None:
        ws = sarr(weights).ravel().tolist()
    else:
        ws = [1.0] * len(xs)
    if np.ndim(bins if not isinstance(bins, SymArray) else raw(bins)) == 0 and not isinstance(bins, str):
        n = int(bins)
        if range is None:
            if xs:
                lo = functools.reduce(lambda p, q: q if bool(q < p) else p, xs)
                hi = functools.reduce(lambda p, q: q if bool(q > p) else p, xs)
            else:
                lo, hi = 0.0, 1.0
        else:
            lo, hi = range
        if bool(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        edges = [lo + (hi - lo) * (i / n) if i < n else hi for i in builtins.range(n + 1)]
        edges[0] = lo
    elif isinstance(bins, str):
        raise Unsupported('np.histogram bin estimators')
    else:
        edges = sarr(bins).tolist()
        n = len(edges) - 1
    cnt = [0.0] * n
    for x, w in zip(xs, ws):
        for i in builtins.range(n):
            if i == 0 and bool(x < edges[0]):
                break
            if bool(x < edges[i + 1]) or (i == n - 1 and bool(x <= edges[n])):
                cnt[i] = cnt[i] + w
                break
    if density:
        tot = sum(cnt)
        cnt = [c / (edges[i + 1] - edges[i]) / tot for i, c in enumerate(cnt)]
    elif weights is None:
        return np.array([int(c) for c in cnt]), sarr(edges)
    return sarr(cnt), sarr(edges)


def s_allclose(a, b, **k):
    return reduce_fn(b_and, sarr(s_isclose(a, b, **k)), None, True)


def s_unique(a, *args, **kw):
    if args or kw:
        raise Unsupported('np.unique options')
    out = []
    for x in sarr(a).ravel().tolist():
        if not any(bool(x == y) for y in out):
            out.append(x)
    import functools
    out.sort(key=functools.cmp_to_key(lambda x, y: -1 if bool(x < y) else 1))
    return sarr(out)


def s_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = sarr(y)
    d = s_diff(sarr(x)) if x is not None else dx
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    r = (d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0).cumsum(axis=axis)
    if initial is not None:
        shp = list(r.shape)
        shp[axis] = 1
        r = wrap(np.concatenate([np.full(shp, initial, dtype=object), r.view(np.ndarray)], axis=axis))
    return r


FUNCS = {
    'where': s_where, 'clip': s_clip, 'isclose': s_isclose, 'allclose': s_allclose,
    'array_equal': s_array_equal, 'interp': s_interp, 'diff': s_diff, 'trapezoid': s_trapezoid, 'trapz': s_trapezoid,
    'gradient': s_gradient, 'meshgrid': s_cross_meshgrid, 'linspace': s_linspace, 'logspace': s_logspace,
    'geomspace': s_geomspace, 'tile': s_tile, 'nan_to_num': s_nan_to_num, 'searchsorted': s_searchsorted,
    'select': s_select, 'piecewise': s_piecewise, 'einsum': s_einsum, 'array': s_array, 'asarray': s_asarray,
    'asanyarray': s_asarray, 'ascontiguousarray': lambda a, dtype=None, **k: np.atleast_1d(s_asarray(a)).copy(),
    'asfortranarray': s_asarray, 'average': s_average, 'polyval': s_polyval, 'outer': s_outer, 'unique': s_unique,
    'require': s_asarray, 'copy': lambda a, *x, **k: sarr(a).copy(),
    'sum': npsum, 'mean': lambda a, axis=None, **k: sarr(a).mean(axis=axis, **k),
    'prod': lambda a, axis=None, **k: sarr(a).prod(axis=axis, **k),
    'var': s_var, 'std': lambda a, axis=None, *x, **k: elementwise(UF['sqrt'], s_var(a, axis, *x, **k)), 'norm': s_norm, 'fromiter': s_fromiter,
    'nansum': npsum, 'nanmean': lambda a, axis=None, **k: sarr(a).mean(axis=axis, **k),
    'max': lambda a, axis=None, **k: sarr(a).max(axis=axis, **k), 'amax': lambda a, axis=None, **k: sarr(a).max(axis=axis, **k),
    'min': lambda a, axis=None, **k: sarr(a).min(axis=axis, **k), 'amin': lambda a, axis=None, **k: sarr(a).min(axis=axis, **k),
    'nanmax': lambda a, axis=None, **k: sarr(a).max(axis=axis, **k), 'nanmin': lambda a, axis=None, **k: sarr(a).min(axis=axis, **k),
    'any': lambda a, axis=None, **k: sarr(a).any(axis=axis, **k), 'all': lambda a, axis=None, **k: sarr(a).all(axis=axis, **k),
    'cumsum': lambda a, axis=None, **k: sarr(a).cumsum(axis=axis), 'histogram': s_histogram,
    'nonzero': lambda a: sarr(a).nonzero(), 'flatnonzero': lambda a: sarr(a).ravel().nonzero()[0],
    'count_nonzero': lambda a, **k: len(sarr(a).ravel().nonzero()[0]),
    'argmin': lambda a, axis=None, **k: sarr(a).argmin(axis), 'argmax': lambda a, axis=None, **k: sarr(a).argmax(axis),
    'zeros_like': lambda a, dtype=None, order='K', subok=True, shape=None: like(a, shape, 0.0),
    'ones_like': lambda a, dtype=None, order='K', subok=True, shape=None: like(a, shape, 1.0),
    'full_like': lambda a, fill_value, dtype=None, order='K', subok=True, shape=None: like(a, shape, fill_value),
    'empty_like': lambda a, dtype=None, order='K', subok=True, shape=None: like(a, shape, None),
    'real': lambda a: a.real, 'imag': lambda a: a.imag, 'iscomplexobj': lambda a: False, 'isscalar': lambda a: isinstance(a, Sym),
    'isrealobj': lambda a: True, 'angle': lambda a, **k: core.fn('arctan2', a.imag, a.real),
    'ndim': lambda a: sarr(a).ndim, 'shape': lambda a: sarr(a).shape, 'size': lambda a, axis=None: sarr(a).size if axis is None else sarr(a).shape[axis],
    'atleast_1d': lambda *a: _atleast(a, 1), 'atleast_2d': lambda *a: _atleast(a, 2), 'atleast_3d': lambda *a: _atleast(a, 3),
    'iterable': lambda a: not isinstance(a, Sym), 'array2string': lambda a, **k: repr(a), 'array_repr': lambda a, *x, **k: 'SymArray',
    'array_str': lambda a, *x, **k: 'SymArray', 'around': lambda a, decimals=0, **k: sarr(a).round(decimals),
    'round': lambda a, decimals=0, **k: sarr(a).round(decimals), 'append': lambda arr, values, axis=None: _append(arr, values, axis),
    'full': lambda shape, fill_value, dtype=None, **k: like(None, shape, fill_value), 'isreal': lambda a: elementwise(lambda x: True, a),
    'place': None, 'putmask': None,
}
FUNCS = {k: v for k, v in FUNCS.items() if v is not None}


def _append(arr, values, axis=None):
    arr, values = sarr(arr), sarr(values)
    if axis is None:
        return wrap(np.concatenate([arr.reshape(-1).view(np.ndarray), values.reshape(-1).view(np.ndarray)]))
    return wrap(np.concatenate([arr.view(np.ndarray), values.view(np.ndarray)], axis=axis))


def _atleast(arrs, n):
    out = []
    for a in arrs:
        r = sarr(a)
        if n == 1:
            r = r.reshape(1) if r.ndim == 0 else r
        elif n == 2:
            r = r.reshape(1, 1) if r.ndim == 0 else (r[np.newaxis, :] if r.ndim == 1 else r)
        else:
            r = np.atleast_3d(r.view(np.ndarray)).view(SymArray)
        out.append(r)
    return out[0] if len(out) == 1 else tuple(out)


def deep_raw(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, Sym):
        return raw(x)
    if type(x) is list:
        return [deep_raw(e) for e in x]
    if type(x) is tuple:
        return tuple(deep_raw(e) for e in x)
    return x


def function_dispatch(func, args, kwargs):
    name = getattr(func, '__name__', '')
    f = FUNCS.get(name)
    if f is not None and getattr(func, '__module__', 'numpy').split('.')[0] == 'numpy':
        return f(*args, **kwargs)
    mod = getattr(func, '__module__', '') or ''
    if mod.startswith('numpy.linalg') or mod.startswith('numpy.fft') or mod.startswith('numpy.random'):
        a = [to_float(x) for x in args]
        return func(*a, **{k: to_float(v) for k, v in kwargs.items()})
    out = kwargs.get('out')
    r = func(*[deep_raw(a) for a in args], **{k: deep_raw(v) for k, v in kwargs.items()})
    if out is not None and isinstance(out, SymArray):
        return out
    return wrap(r)
