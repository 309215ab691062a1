"""C23: real-space projection, unit conversion and cosmology correction."""
import math
from . import cosmosis
from .cosmosis import Block, OPT, COSMO
from .common import ENV_ASSUMPTIONS
from symx.world import keyable

ASSUMPTIONS = ['the Hankel transforms (pyfftlog, hankel) are stand-ins: arbitrary functions of the samples and the order they are given; astropy cosmologies are arbitrary functions of their parameters and redshift, astropy units convert exactly',
               'CosmoSIS blocks are a stand-in with the documented typed accessors', ENV_ASSUMPTIONS[2]]
BOUNDS = 'spectra on 3 redshifts x 3 wavenumbers and kernels on 3 to 4 redshifts, all values arbitrary reals (also of mixed sign), 1 to 4 bins, transforms of 5 points, two consecutive calls; all angle units; both correlation types; all cosmological parameters arbitrary reals'
OUTSIDE = 'accuracy of the Hankel transform itself (N01); the lensing density factor in pk_to_real_ogata (that variant leaves it out); interpolation outside the kernel\'s redshifts other than zero'
K, Z = [0.01, 0.1, 2.0], [0.0, 0.4, 1.0]
MU = dict(wp=0.0, ds=2.0)
INPUT = dict(wp='galaxy_power', ds='matter_galaxy_power')
N, KMIN, KMAX = 5, 0.005, 20.0


def stand_ins(env):
    cosmosis.stand_in(env)

    def fhti(n, mu, dlnr, q=0, kr=1, kropt=0):
        return env.opaque('kr', [keyable(float(mu))], (), pos=True, lo=1.0, hi=1.01), ('transform', n, float(mu), float(q), round(float(dlnr), 9))

    def fht(a, xsave, tdir=1):
        return env.opaque('hankel', [a, keyable(dict(x=repr(xsave), t=tdir))], (len(a),), lo=-5.0, hi=5.0)

    class Hankel:
        def __init__(self, nu=0, N=200, h=0.05):
            self.nu, self.N, self.h = nu, N, h

        def transform(self, f, ret_err=True, ret_cumsum=False):
            x = [0.3, 1.7]
            return env.opaque('ogata', [env.np.array([f(v) for v in x]), keyable(dict(nu=self.nu, N=self.N, h=round(self.h, 9)))], (), lo=-5.0, hi=5.0), 0.0

    env.env_modules['pyfftlog'] = dict(fhti=fhti, fht=fht, fhtq=lambda a, x, tdir=1: fht(a, ('biased', x), tdir))
    env.env_modules['hankel'] = dict(HankelTransform=Hankel)
    env.env_modules['matplotlib'] = {}
    env.env_modules['matplotlib.pyplot'] = {}
    return fhti, fht, Hankel


def loginterp(env, k, p, q, sign):
    np = env.np
    if sign > 0:
        return np.exp(env.lin_interp(np.log(k), np.log(p), np.log(q)))
    if sign < 0:
        return -np.exp(env.lin_interp(np.log(k), np.log(-p), np.log(q)))
    return env.lin_interp(np.log(k), p, np.log(q))


RANGE = {1: (0.5, 50.0), -1: (-50.0, -0.5)}


def interpolation(env, sign, kind='linear'):
    """Sampling of the spectrum handed to the transform."""
    stand_ins(env)
    m = env.load('cosmosis_modules.pk_to_real.pk_to_real')
    np = env.np
    k = np.array(K)
    if sign == 0:
        p = np.array([env.real('p0', 0.5, 50.0), env.real('p1', -50.0, -0.5), env.real('p2', -50.0, 50.0)])
    elif sign == 'zero':
        p, sign = np.array([env.real('p0', 0.5, 50.0), 0.0, env.real('p2', 0.5, 50.0)]), 0
    else:
        p = env.arr('p', (3,), *RANGE[sign])
    f = m.LogInterp(k, p, 'linear')
    for name, q in (('inside', [0.02, 0.07, 0.5]), ('outside', [0.001, 30.0])):
        env.equal(f'samples {name}', f(np.array(q)), loginterp(env, k, p, np.array(q), sign))
    env.equal('at its own points', f(k), p)


def build(env, module, corr, nb=1, suffixes=None, sections=False, defaults=False, rp=(0.1, 30.0)):
    fhti, fht, Hankel = stand_ins(env)
    m = env.load(f'cosmosis_modules.pk_to_real.{module}')
    o = dict(corr_type=corr, sample='nz_lens', n_transform=N, k_min_extrapolate=KMIN, k_max_extrapolate=KMAX, rp_min=rp[0], rp_max=rp[1])
    if sections:
        o.update(input_section_name='my_power', output_section_name='my_corr')
    if sections == 'empty':
        o.update(input_section_name='', output_section_name='')
    if suffixes:
        o['suffixes'] = suffixes if len(suffixes) > 1 else suffixes[0]
    return m, m.setup(Block({(OPT, k): v for k, v in o.items()})), fhti, fht, Hankel


def block(env, corr, nb, suffixes, sections, g, density='array', dropped=False):
    np = env.np
    sec = 'my_power' if sections is True else INPUT[corr]
    v = {}
    if corr == 'ds':
        d = env.real(f'density#{g}', 1.0, 9.0)
        v['density', 'mean_density0'] = np.array([d, d, d]) if density == 'array' else np.array([d])
    v['nz_lens', 'z'] = np.array([0.0, 0.3, 0.6, 0.9])
    v['nz_lens', 'nbin'] = nb
    for i in range(nb):
        v['nz_lens', f'bin_{i + 1}'] = env.arr(f'kernel{i}#{g}', (4,), 0.0, 3.0)
        s = f'{sec}_{suffixes[i]}' if suffixes else sec
        v[s, 'k_h'] = np.array([x * (1 + 0.1 * (i if suffixes else 0)) for x in K])
        v[s, 'z'] = np.array([x + 0.01 * (i if suffixes else 0) for x in Z])
        v[s, 'p_k'] = env.arr(f'pk{i if suffixes else 0}#{g}', (3, 3), 0.5, 50.0)
    return Block(v)


def project(env, module='pk_to_real', corr='wp', nb=1, suffixes=None, sections=False, calls=1, rp=(0.1, 30.0), density='array'):
    m, t, fhti, fht, Hankel = build(env, module, corr, nb, suffixes, sections, rp=rp)
    np = env.np
    for g in range(calls):
        b, given = block(env, corr, nb, suffixes, sections, g, density), block(env, corr, nb, suffixes, sections, g, density)
        env.same('return code', m.execute(b, t), 0)
    out = 'my_corr' if sections is True else corr
    sec = 'my_power' if sections is True else INPUT[corr]
    kt = np.logspace(math.log10(KMIN), math.log10(KMAX), N)
    dln = (math.log(KMAX) - math.log(KMIN)) / (N - 1)
    ogata = module.endswith('ogata')
    kr, xs = (1.0, None) if ogata else fhti(N, MU[corr], dln, q=0.0, kropt=1)
    mid = math.exp(0.5 * (math.log(KMIN) + math.log(KMAX)))
    sep = [math.exp((i - 0.5 * (N + 1)) * dln) / mid for i in range(N)]
    keep = [i for i in range(N) if rp[0] < sep[i] < rp[1]]
    rps = np.array([sep[i] for i in keep]) * kr
    h = Hankel(MU[corr], 20, math.pi / 20)
    for i in range(nb):
        s = f'{sec}_{suffixes[i]}' if suffixes else sec
        k, z, P = given[s, 'k_h'], given[s, 'z'], given[s, 'p_k']
        rows = []
        for j in range(3):
            if ogata:
                rows.append(np.array([h.transform(lambda x, r=sep[a]: env.lin_interp(k, P[j], np.array([x / r]))[0] * x)[0] / (2.0 * math.pi * sep[a] ** 2) for a in keep]))
            else:
                x = fht(kt * loginterp(env, k, P[j], kt, 1), xs, tdir=-1)
                rows.append(np.array([x[a] for a in keep]) / (2.0 * math.pi) / rps)
        xi = np.stack(rows)
        nz = env.lin_interp(given['nz_lens', 'z'], given['nz_lens', f'bin_{i + 1}'], z, left=0.0, right=0.0)
        w = env.simpson(nz[:, None] * xi, z, axis=0)
        if corr == 'ds' and not ogata:
            w = w * given['density', 'mean_density0'][0] / 1e12
        if b.has_value(out, f'bin_{i + 1}'):
            env.equal(f'bin {i + 1}', b[out, f'bin_{i + 1}'], w)
        else:
            env.fails(f'bin {i + 1}', 'not written')
    env.equal('separations', b[out, 'rp'], rps)
    env.same('number of bins', b[out, 'nbin'], nb)
    env.same('sample', b[out, 'sample'], 'nz_lens')
    if not ogata:
        env.same('kind', b[out, 'save_name'], corr)
    for key, v in given.d.items():
        if not isinstance(v, int):
            env.equal(f'input {key[0]}/{key[1]} untouched', b.d[key], v)


RAD = {'rad': 1.0, 'deg': math.pi / 180, 'arcmin': math.pi / 10800, 'arcsec': math.pi / 648000}


def theta(env, unit, out):
    cosmosis.stand_in(env)
    scale = dict(RAD, radian=1.0, degree=RAD['deg'])

    class Quantity:
        def __init__(self, value, unit):
            if unit not in scale:
                raise ValueError(f'{unit!r} did not parse as unit')
            self.value, self.unit = value, unit

        def to(self, u):
            return Quantity(self.value * (scale[self.unit] / scale[u]), u)

        def to_value(self, u):
            return self.to(u).value
    env.env_modules['astropy.units'] = dict(Quantity=Quantity)
    m = env.load('cosmosis_modules.convert_theta.convert_theta')
    c = m.setup(cosmosis.options(output_units=out, section_name='xi'))
    t = env.arr('theta', (3,), 0.001, 500.0)
    b = Block({('xi', 'theta'): t * 1.0, ('xi', 'bin_1_1'): env.arr('xi', (3,), -1.0, 1.0)})
    b.put_metadata('xi', 'theta', 'unit', unit)
    env.same('return code', m.execute(b, c), 0)
    env.same('recorded unit', b.get_metadata('xi', 'theta', 'unit'), out)
    env.equal('physical angle', b['xi', 'theta'] * RAD[out], t * scale[{'radians': 'rad'}.get(unit, unit)])
    env.same('section', sorted(b.d), [('xi', 'bin_1_1'), ('xi', 'theta')])


def correction(env, corr, nb, tcmb=True, model='LambdaCDM', calls=1):
    cosmosis.stand_in(env)
    np = env.np

    class Cosmo:
        kind = None

        def __init__(self, *args, **kw):
            kw.update(zip(('H0', 'Om0'), args))
            self.kw = dict(kw)
            self.h = kw['H0'] / 100.0
            self.key = keyable(dict(kw, kind=self.kind))

        def q(self, name, *z):
            return env.opaque(name, [self.key] + [np.array([x]) for x in z], (), pos=True, lo=0.5, hi=5.0)

        def comoving_distance(self, z):
            return self.q('chi', z)

        def comoving_transverse_distance(self, z):
            return self.q('chi_t', z)

        def angular_diameter_distance(self, z):
            return self.q('da', z)

        def luminosity_distance(self, z):
            return self.q('dl', z)

        def angular_diameter_distance_z1z2(self, a, b):
            return self.q('da12', a, b)

        def efunc(self, z):
            return self.q('efunc', z)

        def inv_efunc(self, z):
            return 1.0 / self.q('efunc', z)

        def H(self, z):
            return self.kw['H0'] * self.q('efunc', z)
    classes = {n: type(n, (Cosmo,), dict(kind=n)) for n in ('FlatLambdaCDM', 'Flatw0waCDM', 'LambdaCDM')}
    env.env_modules['astropy.cosmology'] = classes
    env.env_modules['astropy'] = dict(cosmology=type('cosmology', (), classes))
    m = env.load('cosmosis_modules.pk_to_real.correct_cosmo_real')
    zs = [env.real(f'z{i}', 0.1 + 0.1 * i, 0.15 + 0.1 * i) for i in range(nb)]
    o = {(OPT, 'section_name'): 'sec', (OPT, 'z'): np.array(zs) if nb > 1 else zs[0]}
    kw = dict(H0=70.0, Om0=0.3, Ode0=0.7)
    if model != 'LambdaCDM':
        o[OPT, 'astropy_cosmology_class'] = model
        kw = dict(H0=68.0, Om0=0.31)
        o[OPT, 'cosmo_kwargs'] = repr(kw)
    c = m.setup(Block(o))
    for g in range(calls):
        v = {('sec', 'nbin'): nb, ('sec', 'save_name'): corr, ('sec', 'rp'): env.arr(f'rp#{g}', (3,), 0.1, 10.0)}
        for i in range(nb):
            v['sec', f'bin_{i + 1}'] = env.arr(f'signal{i}#{g}', (3,), -5.0, 5.0)
        for n, lo, hi in (('hubble', 60.0, 80.0), ('omega_b', 0.03, 0.06), ('omega_m', 0.25, 0.35), ('mnu', 0.05, 0.2), ('w', -1.2, -0.8), ('wa', -0.4, 0.4)) + ((('TCMB', 2.6, 2.8),) if tcmb else ()):
            v[COSMO, n] = env.real(f'{n}#{g}', lo, hi)
        b = Block(v)
        env.same('return code', m.execute(b, c), 0)
    C = lambda n: v[COSMO, n]  # noqa: E731
    run = classes['Flatw0waCDM'](H0=C('hubble'), Ob0=C('omega_b'), Om0=C('omega_m'), m_nu=[0, 0, C('mnu')], Tcmb0=C('TCMB') if tcmb else 2.7255, w0=C('w'), wa=C('wa'))
    data = classes[model](**kw)
    hh = run.h / data.h
    ratios = [run.comoving_distance(z) / data.comoving_distance(z) * hh for z in zs]
    for i, z in enumerate(zs):
        if corr == 'wp':
            f = data.efunc(z) / run.efunc(z) / hh
        else:
            f = data.angular_diameter_distance(0.6) * run.angular_diameter_distance_z1z2(z, 0.6) * run.angular_diameter_distance(z) / (run.angular_diameter_distance(0.6) * data.angular_diameter_distance_z1z2(z, 0.6) * data.angular_diameter_distance(z)) * hh
        env.equal(f'signal of bin {i + 1}', b['sec', f'bin_{i + 1}'], v['sec', f'bin_{i + 1}'] * f)
    got, rp = b['sec', 'rp'], v['sec', 'rp']
    if nb == 1:
        env.equal('separations', got, rp * ratios[0])
    else:
        # recorded finding: the shared separations collect the ratio of every bin
        prod = rp
        for r in ratios:
            prod = prod * r
        once = got - rp * ratios[0]
        for r in ratios[1:]:
            once = once * (got - rp * r)
        env.equal('separations scaled once or, as recorded, by every bin', once * (got - prod), got * 0.0)
        env.equal('separations shared by several bins are scaled once', once, got * 0.0)
    env.same('kind', b['sec', 'save_name'], corr)
    env.same('number of bins', b['sec', 'nbin'], nb)


def wrong(env, what):
    """Lengths and kinds that do not fit are errors."""
    cosmosis.stand_in(env)
    env.env_modules['astropy.cosmology'] = {n: lambda **k: type('C', (), dict(h=0.7, comoving_distance=lambda s, z: 1.0, efunc=lambda s, z: 1.0))() for n in ('FlatLambdaCDM', 'Flatw0waCDM', 'LambdaCDM')}
    env.env_modules['astropy'] = dict(cosmology=type('cosmology', (), env.env_modules['astropy.cosmology']))
    m = env.load('cosmosis_modules.pk_to_real.correct_cosmo_real')
    nz = dict(short=1, long=3, kind=2)[what]
    c = m.setup(Block({(OPT, 'section_name'): 'sec', (OPT, 'z'): [0.1, 0.2, 0.3][:nz]}))
    v = {('sec', 'nbin'): 2, ('sec', 'save_name'): 'xi' if what == 'kind' else 'wp', ('sec', 'rp'): env.arr('rp', (3,), 0.1, 10.0)}
    for i in range(2):
        v['sec', f'bin_{i + 1}'] = env.arr(f'signal{i}', (3,), -5.0, 5.0)
    for n in ('hubble', 'omega_b', 'omega_m', 'mnu', 'w', 'wa'):
        v[COSMO, n] = env.real(n, 0.1, 0.9)
    env.raises(what, lambda: m.execute(Block(v), c))


H = HARNESSES = []


def add(name, fn, /, tier='quick', maxpaths=200, weight=1, samples=3, **cfg):
    H.append(dict(name=name, fn=fn, cfg=cfg, tier=tier, maxpaths=maxpaths, weight=weight, samples=samples))


for s in (1, -1, 0, 'zero'):
    add(f'sampling, sign {s}', interpolation, sign=s)
for mod in ('pk_to_real', 'pk_to_real_ogata'):
    for corr in ('wp', 'ds'):
        t = 'pk' if mod == 'pk_to_real' else 'ogata'
        add(f'{t} {corr}, one bin', project, module=mod, corr=corr)
        add(f'{t} {corr}, bins of one spectrum', project, module=mod, corr=corr, nb=2)
        add(f'{t} {corr}, own spectra', project, module=mod, corr=corr, nb=2, suffixes=['bright', 'faint'])
        add(f'{t} {corr}, one suffix', project, module=mod, corr=corr, nb=1, suffixes=['1'])
        add(f'{t} {corr}, sections', project, module=mod, corr=corr, nb=2, suffixes=['1', '2'], sections=True)
        add(f'{t} {corr}, empty sections', project, module=mod, corr=corr, sections='empty')
        add(f'{t} {corr}, second call', project, module=mod, corr=corr, nb=2, suffixes=['1', '2'], calls=2)
        add(f'{t} {corr}, range of separations', project, module=mod, corr=corr, rp=(0.5, 5.0))
        add(f'{t} {corr}, three bins', project, module=mod, corr=corr, nb=3, suffixes=['1', '2', '3'])
        add(f'{t} {corr}, four bins of one spectrum', project, module=mod, corr=corr, nb=4)
add('pk ds, one density', project, corr='ds', density='one')
for u in ('rad', 'radian', 'radians', 'deg', 'arcmin', 'arcsec'):
    for v in RAD:
        add(f'angle {u} to {v}', theta, unit=u, out=v)
for corr in ('wp', 'ds'):
    add(f'cosmology correction {corr}', correction, corr=corr, nb=1)
    add(f'cosmology correction {corr}, default temperature', correction, corr=corr, nb=1, tcmb=False)
    add(f'cosmology correction {corr}, other class', correction, corr=corr, nb=1, model='FlatLambdaCDM')
    add(f'cosmology correction {corr}, two bins', correction, corr=corr, nb=2)
    add(f'cosmology correction {corr}, second call', correction, corr=corr, nb=1, calls=2)
    add(f'cosmology correction {corr}, three bins', correction, corr=corr, nb=3, tier='thorough')
for w in ('short', 'long', 'kind'):
    add(f'cosmology correction, {w}', wrong, what=w)
