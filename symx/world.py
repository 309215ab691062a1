"""The environment of the code under test: stand-ins for hmf/halomod, astropy cosmology and units, used in both modes.

Each stand-in returns an arbitrary value (a symbol, or an unknown function of exactly the inputs the real library uses).
"""
import copy
import math

import numpy as np

from . import core, arr, engine
from .core import Sym
from .arr import SymArray


# ---------------------------------------------------------------------------------------------- astropy
class Quantity:
    def __init__(self, value, unit):
        self.value, self.unit = value, unit

    def __deepcopy__(self, memo):
        return self


class Unit:
    def __init__(self, name):
        self.name = name

    def __rmul__(self, o):
        return Quantity(list(o) if isinstance(o, (list, tuple, np.ndarray)) else o, self.name)

    __mul__ = __rmul__


class Units:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Unit(n)


class Cosmo:
    """Flat w0-wa cosmology: the dark-energy functions are astropy's formulas; Om(z), Onu(z) and Onu0 are unknown
    functions of the parameters."""

    def __init__(self, env, kw):
        self.__dict__['env'] = env
        self.__dict__['kw'] = kw
        self.__dict__['calls'] = []

    def key(self):
        kw = dict(self.kw)
        m = kw.get('m_nu')
        if isinstance(m, Quantity):
            kw['m_nu'] = [list(m.value), m.unit]
        return sorted(kw.items())

    def __symkey__(self):
        if self.env.sym:
            return ('cosmo', core.key_of([list(t) for t in self.key()]))
        from .engine import num_key
        return 'cosmo' + num_key([list(t) for t in self.key()])

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Cosmo) and self.__symkey__() == o.__symkey__()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7

    @property
    def Om0(self):
        return self.kw['Om0']

    @property
    def Ob0(self):
        return self.kw['Ob0']

    @property
    def Ok0(self):
        return 0.0

    @property
    def h(self):
        return self.kw['H0'] / 100.0

    @property
    def H0(self):
        return Quantity(self.kw['H0'], 'km/s/Mpc')

    @property
    def Onu0(self):
        return self.env.opaque('Onu0', [list(t) for t in self.key() if t[0] in ('m_nu', 'Neff', 'Tcmb0', 'H0')], pos=True, lo=1e-4, hi=1e-2)

    @property
    def w0(self):
        return self.kw['w0']

    @property
    def wa(self):
        return self.kw['wa']

    def Om(self, z):
        return self._fz('Om_of_z', z, 0.2, 0.99)

    def Onu(self, z):
        return self._fz('Onu_of_z', z, 1e-4, 1e-2)

    def _fz(self, name, z, lo, hi):
        def f(v):
            return self.env.opaque(name, [self.key_list(), v], pos=True, lo=lo, hi=hi)
        if isinstance(z, np.ndarray):
            return arr.elementwise(f, z) if self.env.sym else np.array([f(v) for v in z.ravel()]).reshape(z.shape)
        return f(z)

    def key_list(self):
        return [list(t) for t in self.key()]

    def w(self, z):
        return self.kw['w0'] + self.kw['wa'] * z / (1.0 + z)

    def de_density_scale(self, z):
        np_ = self.env.np
        zp1 = 1.0 + z
        return zp1 ** (3.0 * (1.0 + self.kw['w0'] + self.kw['wa'])) * np_.exp(-3.0 * self.kw['wa'] * z / zp1)

    def scale_factor(self, z):
        return 1.0 / (1.0 + z)


# ---------------------------------------------------------------------------------------------- halo model
class Profile:
    def __init__(self, hm):
        self.hm = hm

    def u(self, k, m, *a, **kw):
        return self.hm.world.profile_u(self.hm, k, m)

    def _rs_from_m(self, m, *a, **kw):
        return self.hm.world.quantity(self.hm, 'r_s', np.shape(m), 0.05, 0.5, prof=True)

    def halo_mass_to_radius(self, m, *a, **kw):
        return self.hm.world.quantity(self.hm, 'rvir', np.shape(m), 0.5, 5.0, mdef=True)


class Growth:
    def __init__(self, hm):
        self.hm = hm

    def growth_factor(self, z):
        w = self.hm.world
        def f(v):
            i = w.zindex(v)
            if w.rich:
                p = self.hm.p
                return w.env.opaque('growth', [keyable([p.get('cosmo_model'), p.get('growth_model'), p.get('growth_params')]), v], pos=True, lo=0.2, hi=1.0)
            return w.env.real(f'growth{i}', 0.2, 1.0) if i is not None else w.env.opaque('growth', [v], pos=True, lo=0.2, hi=1.0)
        if isinstance(z, np.ndarray):
            return arr.elementwise(f, z) if w.env.sym else np.array([f(v) for v in z.ravel()]).reshape(z.shape)
        return f(z)


class HaloModel:
    """DMHaloModel: keeps its configuration with hmf's update semantics (dictionaries merge in place, clone copies)."""
    ERROR_ON_BAD_MDEF = True
    world = None

    def __init__(self, **kw):
        self.p = {}
        self.log = []
        for k, v in kw.items():
            self.p[k] = v
        for k in ('halo_profile_params', 'halo_concentration_params', 'mdef_params'):
            self.p.setdefault(k, {})
        self.world.models.append(self)

    def update(self, **kw):
        for k, v in kw.items():
            if isinstance(v, dict) and v and isinstance(self.p.get(k), dict):
                self.p[k].update(v)
            else:
                self.p[k] = v

    def clone(self, **kw):
        n = object.__new__(type(self))
        n.p = {k: (copy.copy(v) if isinstance(v, dict) else v) for k, v in self.p.items()}
        n.log = []
        n.update(**kw)
        return n

    def __deepcopy__(self, memo):
        return self.clone()

    def __getattr__(self, a):
        if a.startswith('__') or a in ('p', 'world'):
            raise AttributeError(a)
        if a in self.p:
            return self.p[a]
        w = self.world
        if a == 'halo_profile':
            return Profile(self)
        if a == 'growth':
            return Growth(self)
        if a in ('m', 'k') and w.rich:
            names = ('Mmin', 'Mmax', 'dlog10m') if a == 'm' else ('lnk_min', 'lnk_max', 'dlnk')
            return w.env.opaque('grid_' + a, [keyable([self.p.get(n) for n in names])], (len(w.m if a == 'm' else w.kh),), pos=True, lo=0.01, hi=10.0)
        if a in ('m', 'k'):
            return w.m if a == 'm' else w.kh
        spec = w.SPECS.get(a)
        if spec is None:
            raise AttributeError(f'DMHaloModel has no attribute {a!r} (in this model)')
        shape, lo, hi, opt = spec
        n = {'m': len(w.m), 'k': len(w.kh), '': None, '1': 1}[shape]
        return w.quantity(self, a, () if n is None else (n,), lo, hi, **opt)


engine.WIDE.update({
    'z': (0.0, 20.0), 'k': (1e-5, 1e3), 'm': (1e6, 1e18), 'kh': (1e-6, 1e4),
    'dndlnm': (0.0, 1e3), 'halo_bias': (0.0, 100.0), 'nu': (1e-3, 100.0), 'power': (1e-9, 1e7), 'nonlinear_power': (1e-9, 1e7),
    'mean_density0': (1e8, 1e18), 'mean_density': (1e8, 1e20), 'halo_overdensity_mean': (10.0, 5e3), 'n_eff_at_collapse': (-3.0, 3.0),
    'sigma8_z': (1e-3, 10.0), 'cmz_relation_cen': (0.1, 200.0), 'cmz_relation_sat': (0.1, 200.0), 'u_cen': (0.0, 1.0), 'u_sat': (0.0, 1.0),
    **{f'growth{i}': (1e-3, 2.0) for i in range(20)},
})


class World:
    # name -> (axis, low, high, dependence)
    SPECS = {
        'dndlnm': ('m', 0.1, 3.0, dict(mdef=True)),
        'halo_bias': ('m', 0.3, 4.0, dict(mdef=True)),
        'nu': ('m', 0.3, 4.0, {}),
        'power': ('k', 0.5, 50.0, {}),
        'nonlinear_power': ('k', 0.5, 50.0, {}),
        'mean_density0': ('', 1e13, 1e15, {}),
        'mean_density': ('', 1e13, 1e15, {}),
        'halo_overdensity_mean': ('', 100.0, 400.0, dict(mdef=True)),
        'n_eff_at_collapse': ('', -2.5, -0.5, {}),
        'sigma8_z': ('1', 0.3, 1.2, {}),
        'cmz_relation': ('m', 2.0, 15.0, dict(prof=True)),
    }
    SIGNED = {'n_eff_at_collapse'}

    def __init__(self, env, nz=2, nk=2, nm=3, nkh=3, k=None, z=None, m=None, kh=None, mlo=1e12, mhi=1e15, klo=0.01, khi=5.0, zlo=0.02, zhi=2.9, rich=False):
        self.env = env
        self.nz, self.nk, self.nm = nz, nk, nm
        self.z = env.grid('z', nz, zlo, zhi) if z is None else z
        self.k = env.grid('k', nk, klo, khi) if k is None else k
        self.m = env.grid('m', nm, mlo, mhi) if m is None else m
        self.kh = (env.grid('kh', nkh, klo / 10, khi * 10) if kh is None else kh)
        self.models = []
        self.cosmos = []
        self.rich = rich          # values depend on the whole configuration of the halo model
        self.sat_name = 'SatProfile'
        w = self
        HM = type('DMHaloModel', (HaloModel,), {'world': w})
        self.HM = HM

        def flat(**kw):
            c = Cosmo(env, kw)
            w.cosmos.append(c)
            return c
        env.env_modules.update({
            'halomod.halo_model': {'DMHaloModel': HM},
            'astropy.cosmology': {'Flatw0waCDM': flat},
            'astropy.units': Units_module(),
            'halomod.concentration': {'interp_concentration': lambda c: ConcModel('interp', c), 'make_colossus_cm': lambda n: ConcModel('colossus', n)},
            'hmf.density_field.transfer_models': {'EH_NoBAO': lambda c: EH(w, c)},
        })

    def zindex(self, z):
        for i, v in enumerate(self.z):
            if self.env.sym:
                if isinstance(z, Sym) and isinstance(v, Sym):
                    if z is v or not (z - v).t:
                        return i
                elif not isinstance(z, Sym) and not isinstance(v, Sym) and z == v:
                    return i
            elif float(z) == float(v):
                return i
        return None

    def cfg_key(self, hm, mdef=False, prof=False):
        p = hm.p
        base = [p.get(n) for n in ('lnk_min', 'lnk_max', 'dlnk', 'sigma_8', 'n', 'transfer_model', 'transfer_params', 'growth_model', 'growth_params', 'cosmo_model', 'z')]
        if mdef or prof:
            base += [p.get(n) for n in ('Mmin', 'Mmax', 'dlog10m', 'mdef_model', 'mdef_params', 'delta_c', 'hmf_model', 'bias_model', 'disable_mass_conversion')]
        if prof:
            base += [p.get(n) for n in ('halo_profile_model', 'halo_profile_params', 'halo_concentration_model', 'halo_concentration_params')]
        return keyable(base)

    def role(self, hm):
        return 'sat' if hm.p.get('halo_profile_model') == self.sat_name else 'cen'

    def quantity(self, hm, name, shape, lo, hi, mdef=False, prof=False):
        """Value of a halo-model quantity: by redshift (and population, for profile quantities)."""
        i = self.zindex(hm.p['z'])
        pos = name not in self.SIGNED
        if i is None or self.rich:
            return self.env.opaque(name, [self.cfg_key(hm, mdef, prof)], shape, pos=pos, lo=lo, hi=hi)
        nm = f'{name}{"_" + self.role(hm) if prof else ""}@{i}'
        return self.env.arr(nm, shape, lo, hi) if shape else self.env.real(nm, lo, hi)

    def profile_u(self, hm, k, m):
        """Fourier profile u(k|m), (k, m): each element an unknown positive function."""
        shape = (len(k), len(m))
        i = self.zindex(hm.p['z'])
        if i is None or self.rich:
            return self.env.opaque('u', [self.cfg_key(hm, True, True), list(k)], shape, pos=True, lo=0.2, hi=1.0)
        # which k / m of the world were asked for
        same = lambda a, b: len(a) == len(b) and all((x is y) or (not isinstance(x, Sym) and not isinstance(y, Sym) and x == y) or (isinstance(x, Sym) and isinstance(y, Sym) and not (x - y).t) for x, y in zip(a, b))  # noqa: E731
        if same(list(k), list(self.k)) and same(list(m), list(self.m)):
            return self.env.arr(f'u_{self.role(hm)}@{i}', shape, 0.2, 1.0)
        return self.env.opaque('u', [self.role(hm), i, list(k), list(m)], shape, pos=True, lo=0.2, hi=1.0)

    # -- access for references (same names as the stand-in uses)
    def q(self, name, i, role=None):
        shape, lo, hi, opt = self.SPECS[name]
        n = {'m': self.nm, 'k': len(self.kh), '': None, '1': 1}[shape]
        nm = f'{name}{"_" + role if role else ""}@{i}'
        v = self.env.arr(nm, (n,), lo, hi) if n is not None else self.env.real(nm, lo, hi)
        return v

    def u(self, i, role='cen'):
        return self.env.arr(f'u_{role}@{i}', (self.nk, self.nm), 0.2, 1.0)

    def growth(self, i):
        return self.env.real(f'growth{i}', 0.2, 1.0)


def keyable(x):
    if isinstance(x, np.ndarray):
        x = x.tolist()
        return keyable(x) if isinstance(x, list) else x
    if isinstance(x, list) and len(x) == 1:
        return keyable(x[0])
    if isinstance(x, dict):
        return [[k, keyable(v)] for k, v in sorted(x.items(), key=lambda t: str(t[0]))]
    if isinstance(x, (list, tuple)):
        return [keyable(v) for v in x]
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, Quantity):
        return [keyable(x.value), x.unit]
    return x


class ConcModel:
    def __init__(self, how, what):
        self.how, self.what = how, what if isinstance(what, str) else getattr(what, '__name__', repr(what))

    def __eq__(self, o):
        return isinstance(o, ConcModel) and (self.how, self.what) == (o.how, o.what)

    def __hash__(self):
        return hash((self.how, self.what))

    def __repr__(self):
        return f'{self.how}({self.what})'

    def __symkey__(self):
        return f'{self.how}({self.what})'

    def __deepcopy__(self, memo):
        return self


class EH:
    """No-wiggle transfer function: unknown function of (cosmology, ln k)."""

    def __init__(self, world, cosmo):
        self.w, self.cosmo = world, cosmo

    def lnt(self, lnk):
        env = self.w.env

        def f(v):
            return env.opaque('lnT_nowiggle', [v, self.cosmo], lo=-3.0, hi=0.5)
        if isinstance(lnk, np.ndarray):
            return arr.elementwise(f, lnk) if env.sym else np.array([f(v) for v in lnk.ravel()]).reshape(lnk.shape)
        return f(lnk)


def Units_module():
    import types
    m = types.ModuleType('astropy.units')
    m.__getattr__ = lambda n: Unit(n) if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
    return m
