"""Loads the code under test from /repo's working tree, with its imports redirected.

mode 'sym': numpy, scipy, math and some builtins are replaced by symbolic-aware proxies; mode 'num': the real libraries.
In both modes the environment (halomod/hmf halo model, astropy cosmology, emulator, files, CosmoSIS) is what the harness
supplies through `env_modules`.
"""
import ast
import builtins
import importlib
import math
import os
import sys
import types
import numpy as np
from scipy import special

from . import core, arr, stubs
from .core import Sym, SymBool, Unsupported, is_num
from .arr import SymArray, has_sym, to_float, function_dispatch, sarr

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


# ---------------------------------------------------------------------------------------------- wrappers
def wrap_func(f):
    """numpy function/ufunc accepting symbolic arguments in any nesting."""
    name = getattr(f, '__name__', '')

    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            if isinstance(f, np.ufunc):
                return arr.ufunc_dispatch(f, '__call__', a[:f.nin], dict(k, **({'out': a[f.nin:]} if len(a) > f.nin else {})) if not ('out' in k and not isinstance(k['out'], tuple)) else dict(k, out=(k['out'],)))
            return function_dispatch(f, a, k)
        return f(*a, **k)
    g.__name__ = name
    g.__wrapped__ = f
    if isinstance(f, np.ufunc):
        for meth in ('reduce', 'accumulate', 'outer', 'at'):
            def m(*a, _meth=meth, **k):
                if has_sym(a):
                    return arr.ufunc_dispatch(f, _meth, a, _axis(_meth, a, k))
                return getattr(f, _meth)(*a, **k)
            setattr(g, meth, m)
        g.nin = f.nin
    return g


def _axis(meth, a, k):
    if meth in ('reduce', 'accumulate') and len(a) > 1:
        k = dict(k, axis=a[1])
    return k


def _floaty(dtype):
    if dtype is None or dtype is float or dtype is complex:
        return True
    try:
        return np.dtype(dtype).kind in 'fc'
    except TypeError:
        return True


def np_zeros(shape, dtype=float, order='C', **k):
    if not _floaty(dtype):
        return np.zeros(_shape(shape), dtype, order)
    return arr.like(None, _shape(shape), 0.0)


def np_ones(shape, dtype=float, order='C', **k):
    if not _floaty(dtype):
        return np.ones(_shape(shape), dtype, order)
    return arr.like(None, _shape(shape), 1.0)


def np_empty(shape, dtype=float, order='C', **k):
    if not _floaty(dtype):
        return np.empty(_shape(shape), dtype, order)
    return arr.like(None, _shape(shape), None)


def np_full(shape, fill_value, dtype=None, order='C', **k):
    if not has_sym(fill_value) and (not _floaty(dtype) or (dtype is None and isinstance(fill_value, (bool, str, np.bool_)))):
        return np.full(_shape(shape), fill_value, dtype, order)
    return arr.like(None, _shape(shape), fill_value)


def _shape(s):
    if isinstance(s, Sym):
        return int(s)
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    return s


def _mk_like(realf, fill):
    def f(a, *args, dtype=None, order='K', subok=True, shape=None):
        if realf is np.full_like:
            fv, args = args[0], args[1:]
        else:
            fv = fill
        if args and dtype is None:
            dtype = args[0]
        if not has_sym(a) and not (realf is np.full_like and has_sym(fv)):
            r = np.asarray(a)
            if (dtype is None and r.dtype.kind not in 'fc') or (dtype is not None and not _floaty(dtype)):
                return realf(a, *((fv,) if realf is np.full_like else ()), dtype=dtype, shape=shape)
        elif dtype is not None and not _floaty(dtype):
            return realf(np.zeros(np.shape(arr.raw(a) if not isinstance(a, (list, tuple)) else sarr(a))), *((fv,) if realf is np.full_like else ()), dtype=dtype, shape=shape)
        return arr.like(arr.raw(sarr(a)) if isinstance(a, (list, tuple)) else a, _shape(shape) if shape is not None else None, fv)
    return f


def np_loadtxt(fname, *a, **k):
    data = FILES.get(str(fname))
    if data is None:
        return np.loadtxt(fname, *a, **k)
    d = arr.sarr(data)
    use = k.get('usecols')
    if use is not None:
        d = d[:, list(use) if not isinstance(use, int) else [use]]
    if k.get('unpack'):
        d = d.T
    return d if d.shape[0] != 1 or k.get('ndmin') else (d[0] if d.ndim > 1 else d)


class SymVectorize:
    def __init__(self, pyfunc, *a, **k):
        self.f = pyfunc

    def __call__(self, *args, **kw):
        f = (lambda *a: self.f(*a, **kw)) if kw else self.f
        return arr.elementwise(f, *args)


def np_fromiter(it, dtype=float, count=-1, **k):
    v = list(it)
    return arr.s_fromiter(v, dtype, count) if has_sym(v) else np.fromiter(v, dtype, count, **k)


def np_frompyfunc(f, nin, nout, **k):
    real = np.frompyfunc(f, nin, nout, **k)
    return lambda *a: arr.elementwise(f, *a) if nout == 1 and has_sym(a) else real(*a)


FILES = {}       # path -> 2-d data for np.loadtxt in symbolic mode (rows = lines)


def sym_float(x=0.0):
    if isinstance(x, Sym):
        return core.plain(x)
    if isinstance(x, SymArray):
        if x.size == 1:
            v = x.ravel().tolist()[0]
            return v if isinstance(v, Sym) else float(v)
        raise TypeError('only length-1 arrays can be converted to Python scalars')
    return float(x)


def sym_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for e in ts:
            flat.extend(getattr(e, '__args__', (e,)) if not isinstance(e, tuple) else e)
        if any(isinstance(e, type) and (issubclass(float, e) or issubclass(np.float64, e)) for e in flat):
            return True
    return isinstance(x, t)


class CallRewriter(ast.NodeTransformer):
    """float(x) and isinstance(x, T) understand symbolic numbers; nothing else is changed."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('float', 'isinstance'):
            node.func = ast.copy_location(ast.Name('__sym_%s__' % node.func.id, ast.Load()), node.func)
        return node


def sym_min(*a, **k):
    if not k and len(a) > 1 and any(isinstance(x, Sym) for x in a):
        r = a[0]
        for x in a[1:]:
            r = core.smin(r, x)
        return r
    if not k and len(a) == 1 and has_sym(a[0]) and np.ndim(arr.raw(a[0]) if isinstance(a[0], SymArray) else 1) <= 1:
        return sym_min(*list(a[0])) if len(list(a[0])) > 1 else list(a[0])[0]
    return builtins.min(*a, **k)


def sym_max(*a, **k):
    if not k and len(a) > 1 and any(isinstance(x, Sym) for x in a):
        r = a[0]
        for x in a[1:]:
            r = core.smax(r, x)
        return r
    if not k and len(a) == 1 and has_sym(a[0]):
        return sym_max(*list(a[0])) if len(list(a[0])) > 1 else list(a[0])[0]
    return builtins.max(*a, **k)


def _math(name):
    real = getattr(math, name)
    if not callable(real):
        return real

    def f(*a):
        if has_sym(a):
            if name == 'log' and len(a) == 2:
                return core.slog(core.lift(a[0])) / (core.slog(core.lift(a[1])) if isinstance(a[1], Sym) else math.log(a[1]))
            if name == 'pow':
                return core.power(core.lift(a[0]), core.lift(a[1]))
            if name == 'isclose':
                return arr.s_isclose(a[0], a[1], rtol=1e-9, atol=0.0)
            if name == 'fsum':
                return sum(a[0])
            if name == 'prod':
                r = 1.0
                for v in a[0]:
                    r = r * v
                return r
            u = arr.UF.get({'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'atan2': 'arctan2', 'fmod': 'mod', 'fabs': 'absolute'}.get(name, name))
            if u is None:
                raise Unsupported(f'math.{name} of a symbolic value')
            return u(*[x if not isinstance(x, SymArray) else x.item() for x in a])
        return real(*a)
    return f


def wrap_scalar(real, f):
    return lambda x, *a, **k: arr.elementwise(f, x) if has_sym(x) else real(x, *a, **k)


NP_OVERRIDES = {
    'zeros': np_zeros, 'ones': np_ones, 'empty': np_empty, 'full': np_full,
    'zeros_like': _mk_like(np.zeros_like, 0.0), 'ones_like': _mk_like(np.ones_like, 1.0),
    'empty_like': _mk_like(np.empty_like, None), 'full_like': _mk_like(np.full_like, None),
    'loadtxt': np_loadtxt, 'genfromtxt': np_loadtxt, 'vectorize': SymVectorize, 'fromiter': np_fromiter, 'frompyfunc': np_frompyfunc,
}

SCIPY_OVERRIDES = {
    'scipy.integrate': {'simpson': stubs.simpson, 'simps': stubs.simpson, 'quad': stubs.quad, 'solve_ivp': stubs.solve_ivp,
                        'trapezoid': stubs.trapezoid, 'cumulative_trapezoid': stubs.cumulative_trapezoid,
                        'trapz': stubs.trapezoid, 'cumtrapz': stubs.cumulative_trapezoid},
    'scipy.interpolate': {'interp1d': stubs.interp1d_factory, 'RegularGridInterpolator': stubs.RegularGridInterpolator,
                          'InterpolatedUnivariateSpline': stubs.InterpolatedUnivariateSpline},
    'scipy.ndimage': {'gaussian_filter1d': stubs.gaussian_filter1d},
    'scipy.fftpack': {'rfft': stubs.rfft, 'irfft': stubs.irfft},
    'scipy.fft': {'fht': stubs.fht, 'fhtoffset': stubs.fhtoffset},
    'scipy.special': {'erf': stubs.erf, 'erfc': stubs.erfc, 'gamma': stubs.gamma, 'binom': stubs.binom,
                      'expit': wrap_scalar(special.expit, lambda x: 1.0 / (1.0 + arr.UF['exp'](-1.0 * x))), 'exp10': wrap_scalar(special.exp10, lambda x: 10.0 ** x),
                      'cbrt': wrap_scalar(special.cbrt, lambda x: x ** (1.0 / 3.0)), 'log1p': wrap_scalar(special.log1p, lambda x: arr.UF['log'](1.0 + x)), 'expm1': wrap_scalar(special.expm1, lambda x: arr.UF['exp'](x) - 1.0)},
}


class ModProxy(types.ModuleType):
    """A library module as seen by the code under test in symbolic mode."""

    def __init__(self, name, loader):
        super().__init__(name)
        self.__dict__['_real'] = importlib.import_module(name)
        self.__dict__['_loader'] = loader
        self.__dict__['_cache'] = {}
        self.__dict__['__path__'] = []

    def __getattr__(self, attr):
        c = self._cache
        if attr in c:
            return c[attr]
        name = self.__name__
        real = self._real
        if name == 'numpy' and attr in NP_OVERRIDES:
            v = NP_OVERRIDES[attr]
        elif name == 'math':
            v = _math(attr)
        elif name in SCIPY_OVERRIDES and attr in SCIPY_OVERRIDES[name]:
            v = SCIPY_OVERRIDES[name][attr]
        else:
            try:
                v = getattr(real, attr)
            except AttributeError:
                v = importlib.import_module(f'{name}.{attr}') if name.split('.')[0] == 'scipy' else getattr(real, attr)
            if isinstance(v, types.ModuleType):
                v = self._loader.library(v.__name__) if v.__name__.split('.')[0] in PROXIED else v
            elif name.split('.')[0] in ('numpy',) and callable(v) and not isinstance(v, type):
                v = wrap_func(v)
            elif name.split('.')[0] in ('scipy',) and callable(v) and not isinstance(v, type):
                v = const_only(v, f'{name}.{attr}')
        c[attr] = v
        return v


def const_only(f, label):
    """Library function without a symbolic model: allowed on constants only."""
    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            try:
                return f(*[to_float(x) for x in a], **{n: to_float(x) for n, x in k.items()})
            except Unsupported:
                raise Unsupported(f'{label} of symbolic arguments')
        return f(*a, **k)
    g.__name__ = getattr(f, '__name__', label)
    return g


PROXIED = ('numpy', 'scipy', 'math')


class Loader:
    def __init__(self, mode, env_modules=None, packages=None):
        self.mode = mode
        self.env = env_modules if env_modules is not None else {}     # module name -> {attr: replacement} or a module object
        self.packages = packages or {'onepower': os.path.join(SRC, 'onepower'), 'cosmosis_modules': os.path.join(REPO, 'cosmosis_modules')}
        self.mods = {}
        self.libs = {}
        self.files = []
        self.code = set()                      # code objects of the loaded sources (for coverage reports)
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        if mode == 'sym':
            b['__sym_float__'] = sym_float
            b['__sym_isinstance__'] = sym_isinstance
            b['min'] = sym_min
            b['max'] = sym_max
        b['print'] = lambda *a, **k: None
        self.builtins = b

    # -- libraries
    def library(self, name):
        """Module object for a library import."""
        if name in self.libs:
            return self.libs[name]
        ov = self.env.get(name)
        if isinstance(ov, types.ModuleType):
            m = ov
        elif ov is not None:
            m = Overlay(name, ov, self)
        elif self.mode == 'sym' and name.split('.')[0] in PROXIED:
            m = ModProxy(name, self)
        elif any(k.startswith(name + '.') for k in self.env):
            m = Overlay(name, {}, self)
        else:
            m = importlib.import_module(name)
        self.libs[name] = m
        return m

    # -- sources
    def find(self, name):
        top = name.split('.')[0]
        if top not in self.packages:
            return None
        base = self.packages[top]
        parts = name.split('.')[1:]
        p = os.path.join(base, *parts)
        if not parts and os.path.isfile(base):
            return base, False
        if os.path.isdir(p):
            init = os.path.join(p, '__init__.py')
            return (init if os.path.exists(init) else None), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        found = self.find(name)
        if found is None:
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        path, pkg = found
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path) if path else os.path.join(self.packages[name.split('.')[0]], *name.split('.')[1:])]
        self.mods[name] = m
        if path:
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            if self.mode == 'sym':
                tree = ast.fix_missing_locations(CallRewriter().visit(tree))
            code = compile(tree, path, 'exec')
            self.files.append(path)
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self.mods[parent], leaf, m)
        return m

    # -- import statement
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = f'{pkg}.{name}' if name else pkg
        else:
            full = name
        top = full.split('.')[0]
        if top in self.packages:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self.find(f'{full}.{f}'):
                        self.load(f'{full}.{f}')
                return m
            return self.load(top) if not level else m
        if full in ('builtins', 'sys', 'os', 'importlib') or (full.startswith('importlib') and not fromlist):
            return builtins.__import__(full, globals, locals, fromlist, 0)
        m = self.library(full)
        if fromlist:
            for f in fromlist:
                if f != '*' and f'{full}.{f}' in self.env:
                    sub = self.library(f'{full}.{f}')
                    if not isinstance(m, Overlay):
                        if isinstance(m, ModProxy):
                            m._cache[f] = sub
                        else:
                            m = self.libs[full] = Overlay(full, {}, self)
            return m
        if '.' in full:
            # import a.b.c binds a
            t = self.library(top)
            if any(k == top or k.startswith(top + '.') for k in self.env) and not isinstance(t, (Overlay, ModProxy)):
                t = self.libs[top] = Overlay(top, {}, self)
            return t
        return m


class Overlay(types.ModuleType):
    """A real module with some attributes replaced by harness stubs."""

    def __init__(self, name, attrs, loader):
        super().__init__(name)
        self.__dict__['_attrs'] = attrs
        self.__dict__['_loader'] = loader
        self.__dict__['__path__'] = []

    def __getattr__(self, attr):
        if attr in self._attrs:
            return self._attrs[attr]
        sub = f'{self.__name__}.{attr}'
        env = self._loader.env
        if sub in env or any(k.startswith(sub + '.') for k in env):
            return self._loader.library(sub)
        try:
            real = importlib.import_module(self.__name__)
        except ImportError:
            raise AttributeError(attr)
        return getattr(real, attr)
