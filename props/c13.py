"""C13: updated objects agree with freshly built ones."""
import functools
from symx.core import Unsupported
from symx.world import World, Cosmo, keyable
from .common import ENV_ASSUMPTIONS, replace_everywhere
from .c11 import REAL

ASSUMPTIONS = ['DMHaloModel, astropy cosmology, Dark Emulator and the satellite-alignment transforms are unknown functions of their complete configuration; hmf\'s own caching (parameter, cached_quantity, '
               'update, clone) is the real code'] + ENV_ASSUMPTIONS[1:]
BOUNDS = ('histories: build, read everything, change of one branch-selecting option (or none), then every parameter changed once, one at a time or within one update, with full or partial reads in between; '
          'old and new values arbitrary reals in disjoint ranges; redshifts 1, wavenumbers 2, masses 2')
OUTSIDE = ('three or more changes of branch-selecting options in a row; histories that change the number of redshifts, wavenumbers or bins; parameters assigned directly instead of through update; '
           'hmf refuses (AttributeError) to replace a None dictionary parameter by a dictionary')


# ---------------------------------------------------------------------------------------------- comparing objects
def quantities(obj):
    """Names of the derived quantities of an object: read-only properties and cached properties."""
    out = []
    for n in dir(type(obj)):
        if n.startswith('_'):
            continue
        a = getattr(type(obj), n, None)
        if (isinstance(a, property) and a.fset is None) or isinstance(a, functools.cached_property):
            out.append(n)
    return [n for n in out if n not in ('parameter_values',)]


def read(obj, names):
    out = {}
    for n in names:
        try:
            out[n] = getattr(obj, n)
        except Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            out[n] = e
    return out


def flat(v, pre=''):
    """Leaves of a value: arrays and numbers."""
    import numpy as np
    from symx.core import Sym
    if v is None or isinstance(v, (str, bool, int, float, Sym, np.ndarray, np.generic)):
        yield pre, v
    elif isinstance(v, Exception):
        yield pre, 'raises ' + type(v).__name__
    elif isinstance(v, Cosmo):
        yield pre, ('cosmology', v)
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            yield from flat(v[k], f'{pre}[{k}]')
    elif isinstance(v, (list, tuple)):
        yield pre + '.len', len(v)
        for i, x in enumerate(v):
            yield from flat(x, f'{pre}[{i}]')
    elif type(v).__name__ == 'PowerSpectrumResult':
        for k in sorted(vars(v)):
            yield from flat(vars(v)[k], f'{pre}.{k}')


def compare(env, label, a, b):
    import numpy as np
    from symx.core import Sym
    for n in a:
        x, y = list(flat(a[n], n)), list(flat(b[n], n))
        env.same(f'{label}: form of {n}', [p for p, _ in x], [p for p, _ in y])
        for (p, u), (_, v) in zip(x, y):
            if isinstance(u, tuple) and u and isinstance(u[0], str) and u[0] == 'cosmology':
                env.same(f'{label}: {p}', isinstance(v, tuple) and u[1] == v[1], True)
            elif u is None or v is None or isinstance(u, (str, bool)) or isinstance(v, (str, bool)):
                env.same(f'{label}: {p}', u, v)
            elif isinstance(u, (np.ndarray, np.generic, Sym, int, float)):
                if np.shape(u) != np.shape(v):
                    env.same(f'{label}: shape of {p}', np.shape(u), np.shape(v))
                else:
                    env.equal(f'{label}: {p}', u, v)


# ---------------------------------------------------------------------------------------------- Spectra
NZ, NK, NM, NB = 1, 2, 2, 1
RANGE = dict(REAL, norm_cen=(0.5, 1.5), norm_sat=(0.5, 1.5), eta_cen=(-0.3, 0.3), eta_sat=(-0.3, 0.3), mb=(1e13, 1e15), t_eff=(0.0, 1.0), one_halo_ktrunc=(0.02, 5.0), two_halo_ktrunc=(0.02, 5.0),
             one_halo_ktrunc_ia=(0.02, 5.0), two_halo_ktrunc_ia=(0.02, 5.0))
ARRAYS = dict(matter_power_lin=((NZ, NK), 0.5, 50.0), matter_power_nl=((NZ, NK), 0.5, 80.0), beta_nl=((NZ, NK, NM, NM), -0.9, 2.0))
NAMES_ = dict(hmf_model=('Jenkins', 'PS', 'SMT'), bias_model=('Mo96', 'ST99', 'SMT01'), halo_profile_model_dm=('ProfC', 'ProfD', 'ProfE'), halo_profile_model_sat=('ProfS', 'ProfT', 'ProfU'),
              halo_concentration_model_dm=('Duffy08', 'Bullock01', 'Ludlow16'), halo_concentration_model_sat=('Bullock01', 'Ludlow16', 'Duffy08'), transfer_model=('EH', 'BBKS', 'CAMB'), growth_model=('GrowthFactor', 'Carroll1992', 'CambGrowth'))
DICTS = dict(transfer_params=('tp',), growth_params=('gp',), hod_params=('occ_a', 'occ_b'), hod_settings=('set_a',), hod_settings_mm=('set_m',), obs_settings=('set_o',), poisson_params=('poisson',),
             align_params=('gamma_2h_amplitude', 'beta_cen', 'beta_sat', 'mpivot_cen', 'mpivot_sat', 'gamma_1h_amplitude', 'gamma_1h_slope'))
OPTIONS = dict(hmcode_ingredients=None, nonlinear_mode=None, dewiggle=False, response=False, pointmass=False, compute_observable=True, mdef_model='SOMean')


def part(lo, hi, gen):
    """Disjoint sub-ranges for successive values."""
    w = (hi - lo) / 5.0
    return lo + w * (1.6 * gen), lo + w * (1.6 * gen + 1.0)


def value(env, name, gen):
    """gen-th value of a parameter."""
    if name in RANGE:
        return env.real(f'{name}#{gen}', *part(*RANGE[name], gen))
    if name in ARRAYS:
        sh, lo, hi = ARRAYS[name]
        return env.arr(f'{name}#{gen}', sh, *part(lo, hi, gen))
    if name in NAMES_:
        return NAMES_[name][gen]
    if name in DICTS:
        return {k: env.real(f'{name}.{k}#{gen}', *part(0.5, 3.0, gen)) for k in DICTS[name]}
    if name == 'z_vec':
        return env.arr(f'z#{gen}', (NZ,), *part(0.05, 2.5, gen))
    if name == 'k_vec':
        lo, hi = part(0.01, 5.0, gen)
        return env.grid(f'k#{gen}', NK, lo, hi)
    raise KeyError(name)


def stand_ins(env):
    w = World(env, nz=NZ, nk=NK, nm=NM, nkh=2, rich=True)
    ia, hod = env.load('onepower.ia'), env.load('onepower.hod')

    def table(s):
        return keyable({k: v for k, v in s.parameter_values.items()})

    env.replacing(ia.SatelliteAlignment, 'alignment_gi', 'upsampled_wkm')
    env.unhit.clear()

    class IA(ia.SatelliteAlignment):
        alignment_gi = property(lambda s: env.opaque('align_gi', [table(s)], (NZ,), pos=True, lo=0.5, hi=8.0))

        def upsampled_wkm(s, k, m):
            return env.opaque('wkm', [table(s), list(k), list(m)], (NZ, NM, NK), pos=True, lo=0.01, hi=2.0)
    replace_everywhere(env, ia.SatelliteAlignment, IA)

    class Occupation(hod.HaloOccupationDistribution):
        _defaults = {}

        def __init__(self, **kw):
            self.kw = kw

        def q(self, name, shape, lo, hi):
            return env.opaque(name, [type(self).__name__, keyable(self.kw)], shape, pos=True, lo=lo, hi=hi)
        number_density_cen = property(lambda s: s.q('n_c', (NB, NZ), 0.2, 3.0))
        number_density_sat = property(lambda s: s.q('n_s', (NB, NZ), 0.2, 3.0))
        number_density = property(lambda s: s.q('n_t', (NB, NZ), 0.2, 3.0))
        f_c = property(lambda s: s.q('f_c', (NB, NZ), 0.05, 1.0))
        f_s = property(lambda s: s.q('f_s', (NB, NZ), 0.05, 1.0))
        hod_cen = property(lambda s: s.q('N_c', (NB, NZ, NM), 0.1, 1.0))
        hod_sat = property(lambda s: s.q('N_s', (NB, NZ, NM), 0.1, 5.0))
        hod = property(lambda s: s.q('N', (NB, NZ, NM), 0.1, 5.0))
        stellar_fraction = property(lambda s: s.q('fstar', (NB, NZ, NM), 0.001, 0.1))
        avg_halo_mass_cen = property(lambda s: s.q('mavg', (NB, NZ), 1e12, 1e14))
        obs = property(lambda s: s.q('obs', (NB, NZ, 1, 2), 1e9, 1e11))
        obs_func = property(lambda s: s.q('of', (NB, NZ, 2), 0.1, 1.0))
        obs_func_cen = property(lambda s: s.q('ofc', (NB, NZ, 2), 0.1, 1.0))
        obs_func_sat = property(lambda s: s.q('ofs', (NB, NZ, 2), 0.1, 1.0))
        z = property(lambda s: s.q('oz', (NB, NZ), 0.1, 1.0))
    hods = {n: type(n, (Occupation,), {}) for n in ('Cacciato', 'Other', 'Another')}
    bnl = env.load('onepower.bnl')

    class Bias(bnl.NonLinearBias):
        bnl = property(lambda s: env.opaque('emulated', [table(s)], (1, NK, NM, NM), lo=-0.5, hi=2.0))
    replace_everywhere(env, bnl.NonLinearBias, Bias)
    pois = env.load('onepower.utils.poisson')

    class Pois(pois.Poisson):
        _defaults = {}

        def __init__(self, mass, **kw):
            self.mass, self.kw = mass, kw
        poisson_func = property(lambda s: env.opaque('pois', [type(s).__name__, list(s.mass), keyable(s.kw)], (NM,), pos=True, lo=0.5, hi=1.5))
    poisson = {n: type(n, (Pois,), {}) for n in ('P1', 'P2')}
    return w, hods, poisson


def parameters(cls):
    out = []
    for n in dir(cls):
        a = getattr(cls, n, None)
        if isinstance(a, property) and a.fset is not None:
            out.append(n)
    return out


KNOWN = list(RANGE) + list(ARRAYS) + list(NAMES_) + list(DICTS) + ['z_vec', 'k_vec']


def follow(env, make, P, steps, look=None, prepare=None, label=lambda d: ', '.join(d)):
    """Build, read, then apply each update of `steps` in turn (a list is applied without reading in between); compare with new objects all along."""
    s = make(fresh(P))
    prepare = prepare or (lambda o: None)
    prepare(s)
    look = look(s) if callable(look) else (look or quantities(s))
    read(s, look)
    for st in steps:
        group = st if isinstance(st, list) else [st]
        for d in group:
            s.update(**fresh(d))
            for n, v in d.items():
                P[n] = {**P[n], **v} if isinstance(v, dict) and isinstance(P.get(n), dict) else v
        t = make(fresh(P))
        prepare(s)
        prepare(t)
        compare(env, 'after updating ' + ' then '.join(label(d) for d in group), read(s, look), read(t, look))
    return s


def spectra(env, start):
    w, hods, pois = stand_ins(env)
    pk = env.load('onepower.pk')
    P = {n: value(env, n, 0) for n in KNOWN}
    P.update(OPTIONS, hod_model=hods['Cacciato'], poisson_model=pois['P1'])

    def opt(d):
        return {k: ({'none': None}.get(v, v) if not (isinstance(v, str) and v in hods) else hods[v]) if v != 'given' else value(env, k, 2) for k, v in d.items()}
    P.update(opt(dict(start)))
    have = parameters(pk.Spectra)
    return (lambda p: pk.Spectra(**p)), P, opt, have


LOOK = dict(all=quantities, reverse=lambda s: quantities(s)[::-1], spectra=lambda s: [n for n in quantities(s) if n.startswith(('power_spectrum', 'obs_func'))])


def chain(env, start, then=(), params=None, reads='all', joint=False):
    """Change the options `then`, and then every parameter in turn; joint: the options together with parameters, or with another update before the next reading."""
    make, P, opt, have = spectra(env, start)
    names = [n for n in params or KNOWN if n in have and {**P, **opt(dict(then))}.get(n) is not None]
    steps = []
    ch = opt(dict(then))
    if joint == 'same':
        ch = {**ch, **{n: value(env, n, 1) for n in names[::3] if n not in ch}}
        steps.append(ch)
        names = [n for n in names if n not in ch]
    elif joint == 'next':
        steps.append([ch, {n: value(env, n, 1) for n in names[1::3] if n not in ch}])
        names = [n for n in names if n not in names[1::3]]
    elif ch:
        steps.append(ch)
    steps += [{n: value(env, n, 1)} for n in names]
    follow(env, make, P, steps, LOOK[reads])


# ---------------------------------------------------------------------------------------------- alignment amplitudes and profiles
IA_RANGE = dict(gamma_2h_amplitude=(1.0, 6.0), beta_cen=(0.1, 1.0), beta_two=(0.1, 1.0), beta_sat=(0.1, 1.0), gamma_1h_amplitude=(1e-3, 0.02), gamma_1h_slope=(-1.9, -0.1), mpivot_cen=(12.0, 14.0),
                mpivot_sat=(12.0, 14.0), lpivot_cen=(9.5, 11.0), lpivot_sat=(9.5, 11.0))


def ia_value(env, n, gen):
    if n in IA_RANGE:
        return env.real(f'{n}#{gen}', *part(*IA_RANGE[n], gen))
    if n in ('z_loglum_file_centrals', 'z_loglum_file_satellites'):
        return f'{n}-{gen}'
    if n == 'z_vec':
        return env.grid(f'z#{gen}', 2, *part(0.05, 2.5, gen))
    if n == 'mass_in':
        return env.grid(f'mass#{gen}', 2, *part(1e11, 1e15, gen))
    sh, lo, hi = dict(c_in=((2, 2), 2.0, 15.0), r_s_in=((2, 2), 0.01, 1.0), rvir_in=((2,), 0.1, 3.0))[n]
    return env.arr(f'{n}#{gen}', sh, *part(lo, hi, gen))


def alignment(env, start=(), then=(), profile=False, joint=False):
    from .c16 import Hankel
    env.env_modules['hankel'] = {'HankelTransform': lambda nu=0, N=None, h=0.05, **k: Hankel(env, nu, N, h)}
    ia = env.load('onepower.ia')

    def pdf(s, f, nlbins=None):
        return tuple(env.opaque(q, [f, list(s.z_vec)], (2, 3), pos=True, lo=lo, hi=hi) for q, lo, hi in (('lum', 1e9, 1e11), ('lumpdf', 1e-11, 1e-10)))

    def radial(s, r, rs, rvir, a, b, rcore=0.06, truncate=True):
        np = env.np
        import numpy
        lead = numpy.broadcast_shapes(numpy.shape(rs), numpy.shape(rvir), numpy.shape(a))
        if lead == ():
            return env.opaque('prof', [rs, rvir, a, b, truncate]) * env.np.log(1.0 + r)
        R, V, A = (np.broadcast_to(x, lead).ravel() for x in (rs, rvir, a))
        return np.array([env.opaque('prof', [R[i], V[i], A[i], b, truncate]) for i in range(len(R))]).reshape(lead) * np.log(1.0 + r)
    base = ia.SatelliteAlignment if profile else ia.AlignmentAmplitudes
    C = type(base.__name__, (base,), dict(compute_luminosity_pdf=pdf, gamma_r_nfw_profile=radial))
    P = {n: ia_value(env, n, 0) for n in IA_RANGE}
    P.update({n: ia_value(env, n, 0) for n in ('z_loglum_file_centrals', 'z_loglum_file_satellites', 'z_vec')})
    P.update(central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity')
    if profile:
        P.update({n: ia_value(env, n, 0) for n in ('mass_in', 'c_in', 'r_s_in', 'rvir_in')}, n_hankel=40, nmass=2, nk=2, ell_max=2, truncate=False, method='hankel')
    opt = lambda d: {k: None if v == 'none' else ia_value(env, k, 2) if v == 'given' else v for k, v in d.items()}  # noqa: E731
    P.update(opt(dict(start)))
    ch = opt(dict(then))
    names = [n for n in P if n in IA_RANGE or n in ('z_loglum_file_centrals', 'z_loglum_file_satellites', 'z_vec', 'mass_in', 'c_in', 'r_s_in', 'rvir_in')]
    names = [n for n in names if {**P, **ch}[n] is not None]
    steps = [ch] if ch else []
    if joint:
        steps = [[ch, {n: ia_value(env, n, 1) for n in names[::2]}]]
        names = names[1::2]
    steps += [{n: ia_value(env, n, 1)} for n in names]
    if profile:
        steps += [dict(nk=3), dict(ell_max=4), dict(n_hankel=50), dict(truncate=True)]
    skip = () if not profile else ('hankel', 'beta_two')
    follow(env, lambda p: C(**p), P, steps, lambda s: [n for n in quantities(s) if n not in skip])


# ---------------------------------------------------------------------------------------------- non-linear halo bias
BNL_RANGE = dict(h0=(0.66, 0.7), sigma_8=(0.75, 0.85), A_s=(1.9e-9, 2.3e-9), omega_b=(0.0465, 0.05), omega_c=(0.25, 0.265), omega_lambda=(0.6, 0.75), n_s=(0.93, 1.0), w0=(-1.1, -0.9))


class Emu:
    def __init__(self, env):
        self.env, self.p = env, None
        self.cosmo = type('C', (), {'get_Omega0': lambda s: 0.3})()

    def set_cosmology(self, p):
        self.p = list(p[0])

    def get_sigma8(self):
        return self.env.opaque('emu_s8', self.p, pos=True, lo=0.6, hi=1.0)


def bnl_value(env, n, gen):
    import numpy
    if n in BNL_RANGE:
        return env.real(f'{n}#{gen}', *part(*BNL_RANGE[n], gen))
    if n == 'z_vec':
        return env.arr(f'z#{gen}', (2,), *part(0.05, 1.0, gen))
    return numpy.array(dict(mass=([1e12, 3e13], [4e12, 2e14], [1e13, 5e13]), k_vec=([0.01, 2.0], [0.5, 60.0], [0.1, 0.2]))[n][gen])


def nonlinear_bias(env, start=(), then=(), joint=False):
    env.env_modules['dark_emulator'] = {'darkemu': type('D', (), {'base_class': staticmethod(lambda: Emu(env))})}
    b = env.load('onepower.bnl')
    import numpy

    env.replacing(b.NonLinearBias, 'compute_bnl_darkquest', 'emulator')

    class NonLinearBias(b.NonLinearBias):
        parameters_used = property(lambda s: list(s.emulator.p))

        def compute_bnl_darkquest(self, z, m1, m2, k, kmax):
            env.unhit.clear()
            shape = numpy.arange(float(len(m1) * len(m2) * len(k))).reshape(len(m1), len(m2), len(k))
            return env.opaque('beta', [z] + self.emulator.p, lo=0.1, hi=2.0) * shape
    P = {n: bnl_value(env, n, 0) for n in list(BNL_RANGE) + ['z_vec', 'mass', 'k_vec']}
    P['z_dep'] = False
    opt = lambda d: {k: None if v == 'none' else bnl_value(env, k, 2) if v == 'given' else v for k, v in d.items()}  # noqa: E731
    P.update(opt(dict(start)))
    ch = opt(dict(then))
    names = [n for n in P if n != 'z_dep' and {**P, **ch}[n] is not None]
    steps = [ch] if ch else []
    if joint:
        steps = [[ch, {n: bnl_value(env, n, 1) for n in names[::2]}]]
        names = names[1::2]
    follow(env, lambda p: NonLinearBias(**p), P, steps + [{n: bnl_value(env, n, 1)} for n in names],
           lambda s: [n for n in quantities(s) if n not in ('emulator', 'create_bnl_interpolation_function')])


# ---------------------------------------------------------------------------------------------- combined spectra
def toy_spectra(env, nz=2, nk=2, nb=1):
    """Stands for Spectra: components are unknown functions of all its parameters."""
    pk = env.load('onepower.pk')
    from hmf._internals import _cache as cache, _framework as fw

    def param(n):
        def f(self, val):
            return val
        f.__name__ = n
        return cache.parameter('param')(f)

    def __init__(self, z_vec=None, k_vec=None, amplitude=1.0, slope=0.0, hod_params=None):
        self.z_vec, self.k_vec, self.amplitude, self.slope, self.hod_params = z_vec, k_vec, amplitude, slope, hod_params or {}
    body = dict(__init__=__init__, **{n: param(n) for n in ('z_vec', 'k_vec', 'amplitude', 'slope', 'hod_params')})
    for mode in ('mm', 'gg', 'gm', 'gi', 'ii', 'mi'):
        body[f'power_spectrum_{mode}'] = property(lambda s, m=mode: pk.PowerSpectrumResult(**{
            f'pk_{c}': env.opaque(f'P_{m}_{c}', [keyable(s.parameter_values)], (nb, nz, nk), pos=True, lo=0.5, hi=50.0) for c in ('1h', '2h', 'tot')}))
    Toy = type('Spectra', (fw.Framework,), body)
    replace_everywhere(env, pk.Spectra, Toy)
    return Toy


MODES, PARTS = ['mm', 'gg', 'gm', 'gi', 'ii', 'mi'], ['1h', '2h', 'tot']


def up_value(env, n, gen):
    import numpy
    if n == 'z':
        return numpy.array([[0.1, 0.3, 0.7], [0.05, 0.4, 0.9], [0.2, 0.5, 0.6]][gen])
    if n == 'k':
        return numpy.array([[0.1, 0.3, 0.7], [0.05, 0.4, 0.9], [0.2, 0.5, 0.6]][gen])
    if n == 'fraction_z':
        return numpy.array([[0.0, 0.5, 1.0], [0.1, 0.4, 1.1], [0.0, 0.2, 1.2]][gen])
    if n == 'fraction':
        return env.arr(f'fraction#{gen}', (3,), *part(0.0, 1.0, gen))
    if n == '_model_1_params':
        return dict(z_vec=numpy.array([0.1, 0.8]), k_vec=numpy.array([0.05, 1.5]), amplitude=env.real(f'a1#{gen}', *part(0.0, 5.0, gen)))
    if n == '_model_2_params':
        return dict(amplitude=env.real(f'a2#{gen}', *part(0.0, 5.0, gen)), slope=env.real(f's2#{gen}', *part(0.0, 5.0, gen)))
    if n == 'extrapolate_option':
        return ['extrapolate', 0.25, 0.5][gen]
    raise KeyError(n)


def combined(env, start=(), then=(), joint=False):
    Toy = toy_spectra(env)
    import numpy
    up = env.load('onepower.add').UpsampledSpectra

    def model(g):
        return Toy(z_vec=numpy.array([0.1, 0.8]), k_vec=numpy.array([0.05, 1.5]), amplitude=env.real(f'am#{g}', *part(0.0, 5.0, g)))
    P = {n: up_value(env, n, 0) for n in ('z', 'k', 'fraction_z', 'fraction', '_model_1_params', '_model_2_params', 'extrapolate_option')}
    P['model'] = None
    opt = lambda d: {k: None if v == 'none' else model(2) if k == 'model' else up_value(env, k, 2) if v == 'given' else v for k, v in d.items()}  # noqa: E731
    P.update(opt(dict(start)))
    ch = opt(dict(then))
    names = [n for n in P if n != 'model' and {**P, **ch}[n] is not None]
    steps = [ch] if ch else []
    if joint:
        steps = [[ch, {n: up_value(env, n, 1) for n in names[::2]}]]
        names = names[1::2]
    steps += [{n: up_value(env, n, 1)} for n in names]
    if {**P, **ch}['model'] is not None:
        steps.append(dict(model=model(1)))

    def prepare(s):
        s.results(list(MODES), list(PARTS))
    follow(env, lambda p: up(**{k.lstrip('_'): v for k, v in p.items()}), P, steps, ['frac_1', 'frac_2'] + [f'power_spectrum_{m}' for m in MODES], prepare)


# ---------------------------------------------------------------------------------------------- clones
def clones(env, change, reads='spectra'):
    """A clone with changes equals a new object, leaves the original as it was, and later changes of either do not reach the other."""
    make, P, opt, have = spectra(env, ())
    s = make(fresh(P))
    look = LOOK[reads](s)
    read(s, look)
    ch = {n: value(env, n, 1) for n in KNOWN if n in have and n in change} if change != 'all' else {n: value(env, n, 1) for n in KNOWN if n in have}
    c = s.clone(**fresh(ch))
    Q = {**P, **{n: ({**P[n], **v} if isinstance(v, dict) else v) for n, v in ch.items()}}
    compare(env, 'clone', read(c, look), read(make(fresh(Q)), look))
    compare(env, 'original after cloning', read(s, look), read(make(fresh(P)), look))
    c.update(h0=value(env, 'h0', 2), hod_params=value(env, 'hod_params', 2), align_params=value(env, 'align_params', 2))
    compare(env, 'original after updating its clone', read(s, look), read(make(fresh(P)), look))
    Q.update(h0=value(env, 'h0', 2), hod_params={**Q['hod_params'], **value(env, 'hod_params', 2)}, align_params={**Q['align_params'], **value(env, 'align_params', 2)})
    s.update(omega_c=value(env, 'omega_c', 2), transfer_params=value(env, 'transfer_params', 2), z_vec=value(env, 'z_vec', 2))
    compare(env, 'clone after updating the original', read(c, look), read(make(fresh(Q)), look))


def fresh(P):
    """Own copies of arrays and dictionaries, so that objects share nothing."""
    import numpy as np
    return {k: (dict(v) if isinstance(v, dict) else v * 1.0 if isinstance(v, np.ndarray) else v) for k, v in P.items()}


H = HARNESSES = []


def add(fn, name, tier='quick', **cfg):
    H.append(dict(name=name, fn=fn, cfg=cfg, tier=tier, maxpaths=40))


MEAD = 'mead2020'
FB = 'mead2020_feedback'
SWITCH = [
    ('hmcode_ingredients', 'none', MEAD), ('hmcode_ingredients', 'none', FB), ('hmcode_ingredients', 'none', 'fit'), ('hmcode_ingredients', MEAD, 'none'), ('hmcode_ingredients', FB, 'none'),
    ('hmcode_ingredients', 'fit', 'none'), ('hmcode_ingredients', MEAD, FB), ('hmcode_ingredients', FB, 'fit'), ('hmcode_ingredients', 'fit', MEAD),
    ('nonlinear_mode', 'none', 'bnl'), ('nonlinear_mode', 'none', 'fortuna'), ('nonlinear_mode', 'bnl', 'fortuna'), ('nonlinear_mode', 'fortuna', 'none'), ('nonlinear_mode', 'bnl', 'none'), ('nonlinear_mode', 'fortuna', 'bnl'),
    ('dewiggle', False, True), ('dewiggle', True, False), ('response', False, True), ('response', True, False), ('pointmass', False, True), ('pointmass', True, False),
    ('compute_observable', False, True), ('compute_observable', True, False), ('mdef_model', 'SOMean', 'SOVirial'), ('mdef_model', 'SOVirial', 'SOMean'),
    ('matter_power_lin', 'given', 'none'), ('matter_power_lin', 'none', 'given'), ('hod_model', 'Other', 'Cacciato'), ('hod_model', 'Cacciato', 'Other'),
]
add(chain, 'parameters', start=())
add(chain, 'parameters-reversed-reads', start=(), reads='reverse')
add(chain, 'parameters-spectra-only', start=(), reads='spectra')
for o, a, b in SWITCH:
    add(chain, f'{o}-{a}-to-{b}', start=((o, a),), then=((o, b),), reads='spectra')
for mode, o, a, b in (('bnl', 'beta_nl', 'given', 'none'), ('bnl', 'beta_nl', 'none', 'given'), ('fortuna', 'matter_power_nl', 'given', 'none'), ('fortuna', 'matter_power_nl', 'none', 'given')):
    add(chain, f'{mode}-{o}-{a}-to-{b}', start=(('nonlinear_mode', mode), (o, a)), then=((o, b),), reads='spectra')
for o, a, b in (('matter_power_nl', 'given', 'none'), ('matter_power_nl', 'none', 'given')):
    add(chain, f'response-{o}-{a}-to-{b}', start=(('response', True), (o, a)), then=((o, b),), reads='spectra')
add(chain, 'hmcode-to-none', start=(('nonlinear_mode', 'hmcode'), ('hmcode_ingredients', MEAD)), then=(('nonlinear_mode', 'none'),), reads='spectra')
add(chain, 'none-to-hmcode', start=(('hmcode_ingredients', MEAD),), then=(('nonlinear_mode', 'hmcode'),), reads='spectra')
add(chain, 'hmcode-mead-to-feedback', start=(('nonlinear_mode', 'hmcode'), ('hmcode_ingredients', MEAD)), then=(('hmcode_ingredients', FB),), reads='spectra')
# options changed together with parameters, or changed and followed by another update before anything is read
for o, a, b in (('nonlinear_mode', 'none', 'bnl'), ('response', False, True), ('dewiggle', False, True), ('hmcode_ingredients', 'none', FB), ('compute_observable', False, True), ('matter_power_lin', 'given', 'none')):
    for j in ('same', 'next'):
        add(chain, f'joint-{j}-{o}-{a}-to-{b}', start=((o, a),), then=((o, b),), reads='spectra', joint=j)
C, S_ = 'central_ia_depends_on', 'satellite_ia_depends_on'
for st, th in (((), ()), (((C, 'constant'),), ((C, 'luminosity'),)), (((C, 'luminosity'),), ((C, 'halo_mass'), ('beta_two', 'none'))), (((S_, 'constant'),), ((S_, 'luminosity'),)),
               (((S_, 'luminosity'),), ((S_, 'halo_mass'),)), ((('beta_two', 'none'),), (('beta_two', 'given'),)), ((), (('beta_two', 'none'),)), (((S_, 'halo_mass'), (C, 'constant')), ((S_, 'constant'), (C, 'luminosity')))):
    nm = '+'.join(f'{k}={v}' for k, v in st) + '->' + '+'.join(f'{k}={v}' for k, v in th)
    add(alignment, 'amplitudes:' + nm, start=st, then=th)
    add(alignment, 'amplitudes-joint:' + nm, start=st, then=th, joint=True) if th else None
for st, th in (((), ()), ((('method', 'fftlog'),), ()), ((), (('method', 'fftlog'),)), ((('method', 'fftlog'),), (('method', 'hankel'),)), (((S_, 'constant'),), ((S_, 'luminosity'),))):
    add(alignment, 'profile:' + '+'.join(f'{k}={v}' for k, v in st) + '->' + '+'.join(f'{k}={v}' for k, v in th), start=st, then=th, profile=True)
for st, th in (((), ()), ((('A_s', 'none'),), ()), ((), (('A_s', 'none'),)), ((('A_s', 'none'),), (('A_s', 'given'),)), ((), (('z_dep', True),)), ((('z_dep', True),), (('z_dep', False),))):
    nm = '+'.join(f'{k}={v}' for k, v in st) + '->' + '+'.join(f'{k}={v}' for k, v in th)
    add(nonlinear_bias, 'bnl:' + nm, start=st, then=th)
    add(nonlinear_bias, 'bnl-joint:' + nm, start=st, then=th, joint=True) if th else None
for st, th in (((), ()), ((('fraction', 'none'),), (('fraction', 'given'),)), ((), (('fraction', 'none'),)), ((), (('_model_2_params', 'none'),)),
               ((), (('model', 'given'),)), ((('model', 'given'),), ()), ((('model', 'given'),), (('model', 'none'),))):
    nm = '+'.join(f'{k}={v}' for k, v in st) + '->' + '+'.join(f'{k}={v}' for k, v in th)
    add(combined, 'combined:' + nm, start=st, then=th)
    add(combined, 'combined-joint:' + nm, start=st, then=th, joint=True) if th else None
add(clones, 'clone-all', change='all')
add(clones, 'clone-cosmology', change=('h0', 'omega_c', 'z_vec', 'k_vec'))
add(clones, 'clone-galaxies', change=('hod_params', 'hod_settings', 'align_params', 'obs_settings', 'poisson_params'))
LATER = ('profile:method=fftlog->', 'profile:->method=fftlog', 'hmcode-mead-to-feedback', 'hmcode-to-none', 'response-matter_power_nl-given-to-none', 'parameters-reversed-reads', 'hmcode_ingredients-none-to-mead2020',
         'hmcode_ingredients-fit-to-mead2020', 'hmcode_ingredients-mead2020-to-mead2020_feedback', 'hmcode_ingredients-mead2020-to-none', 'nonlinear_mode-fortuna-to-bnl', 'nonlinear_mode-bnl-to-none',
         'joint-same-matter_power_lin-given-to-none', 'joint-next-matter_power_lin-given-to-none', 'joint-next-dewiggle-False-to-True', 'joint-same-hmcode_ingredients-none-to-mead2020_feedback',
         'nonlinear_mode-bnl-to-fortuna', 'bnl-beta_nl-none-to-given', 'fortuna-matter_power_nl-none-to-given', 'response-matter_power_nl-none-to-given', 'parameters-spectra-only', 'hmcode_ingredients-mead2020_feedback-to-fit')
HEAVY = ('parameters', 'dewiggle-False-to-True', 'none-to-hmcode', 'matter_power_lin-given-to-none', 'hmcode_ingredients-none-to-mead2020_feedback')
for h in H:
    if h['name'] in LATER:
        h['tier'] = 'thorough'
    if h['name'] in HEAVY or h['name'].startswith('profile:'):
        h['weight'] = 5
    h['samples'] = 1
