"""C16: satellite alignment profile."""
from symx.engine import WIDE
from .common import ENV_ASSUMPTIONS

WIDE.update(mass=(1e8, 1e17), c=(0.5, 60.0), rs=(1e-4, 10.0), rvir=(1e-3, 30.0), z=(0.0, 10.0), rs_=(1e-4, 10.0), rv_=(1e-3, 30.0), r=(1e-5, 100.0), rcore=(1e-4, 2.0), uell=(-20.0, 20.0), mout=(1e8, 1e17))
ASSUMPTIONS = ['scipy.fft.fht and the hankel package\'s HankelTransform are linear transforms determined by exactly the samples/function, order, offset, bias and settings they are given',
               'scipy gamma is an unknown positive function at symbolic arguments (scipy\'s own values at constants)'] + ENV_ASSUMPTIONS[2:]
BOUNDS = ('redshifts <=2, masses <=3 (<=9 for mass resampling), multipoles ell<=10, radial slope in (-2,0) and (0,2) or exactly 0, -2; '
          'radii, scale radii, virial radii, amplitudes, concentrations arbitrary positive reals')
OUTSIDE = 'accuracy of the Hankel transforms (N02); slopes <= -2 other than -2 (odd-integer slopes make the general angular formula singular)'
PI = 3.141592653589793


class Hankel:
    """Transform of a function: a quadrature over radii and weights that are arbitrary (symbols), depending on order, settings and k."""

    def __init__(self, env, nu, N, h):
        self.env, self.nu, self.set = env, nu, (N, h)

    def transform(self, f, k, ret_err=True, ret_cumsum=False, inverse=False):
        env, np = self.env, self.env.np
        xs = env.arr('hankel_x', (1,), 1e-3, 10.0)
        fv = f(xs)
        out = np.array([sum(fv[i] * env.opaque('hankel', [i, kk, float(self.nu), self.set[0], self.set[1]]) for i in range(1)) for kk in list(k)])
        return (out, 0.0 * out) if ret_err else out


def profile(env, r, rs, rvir, a, b, truncate, rcore=0.06):
    np = env.np
    x = np.where(r < rcore, rcore, r).item()
    g = a * (x / rvir) ** b
    g = np.where(g > 0.3, 0.3, g).item()
    y = r / rs
    nfw = 1.0 / (y * (1.0 + y) ** 2)
    return g * np.where(r >= rvir, 0.0, nfw).item() if truncate else g * nfw


def make(env, nz=2, nm=2, base=None, **kw):
    env.env_modules['hankel'] = {'HankelTransform': lambda nu=0, N=None, h=0.05, **k: Hankel(env, nu, N, h)}
    ia = env.load('onepower.ia')
    d = dict(mass_in=env.grid('mass', nm, 1e11, 1e15), c_in=env.arr('c', (nz, nm), 2.0, 15.0), r_s_in=env.arr('rs', (nz, nm), 0.01, 1.0), rvir_in=env.arr('rvir', (nm,), 0.1, 3.0),
             z_vec=env.grid('z', nz, 0.05, 2.0), gamma_1h_amplitude=env.real('a1h', 1e-4, 0.5, log=True), gamma_2h_amplitude=env.real('a2h', 1.0, 6.0), satellite_ia_depends_on='constant',
             central_ia_depends_on='constant')
    d.update(kw)
    return (base(ia.SatelliteAlignment) if base else ia.SatelliteAlignment), d


def radial(env, truncate, n=1, core=None, sign=1):
    S, d = make(env)
    s = S(**d)
    r, rs, rv = env.arr('r', (n,), 1e-3, 10.0), env.real('rs_', 0.01, 1.0), env.real('rv_', 0.1, 3.0)
    a, b = (env.real('a_', -0.5, -1e-4) if sign < 0 else env.real('a_', 1e-4, 0.5, log=True)), env.real('b_', -2.5, 1.0)
    kw = {} if core is None else {'rcore': env.real('rcore', 0.01, 0.5)}
    got = s.gamma_r_nfw_profile(r, rs, rv, a, b, truncate=truncate, **kw)
    env.equal('satellite shear profile', got, env.np.array([profile(env, x, rs, rv, a, b, truncate, **kw) for x in list(r)]))


def vectors(env, truncate):
    """Array arguments broadcast as redshift x mass x radius."""
    S, d = make(env)
    s = S(**d)
    np = env.np
    r = env.arr('r', (1,), 1e-3, 10.0)
    rs, rv, a = env.arr('rs_', (2, 2), 0.01, 1.0), env.arr('rv_', (2,), 0.1, 3.0), env.arr('a_', (2,), 1e-4, 0.01)
    b = env.real('b_', -0.5, 1.0)
    got = s.gamma_r_nfw_profile(r[np.newaxis, np.newaxis, :], rs[:, :, np.newaxis], rv[np.newaxis, :, np.newaxis], a[:, np.newaxis, np.newaxis], b, truncate=truncate)
    env.equal('satellite shear profile', got, np.array([[[profile(env, x, rs[i, j], rv[j], a[i], b, truncate) for x in list(r)] for j in range(2)] for i in range(2)]))


def binomial(x, k):
    v = 1.0
    for i in range(k):
        v = v * (x - i) / (i + 1.0)
    return v


def f_ell(env, ell, b):
    """Angular factor of multipole ell for a radial slope b, for k perpendicular to the line of sight."""
    sp = env.loader().library('scipy.special')
    tot = 0.0
    for m in range(2, ell + 1, 2):
        g = 2.0 * PI * binomial(float(m), m // 2 + 1) / 2.0 ** m          # integral of cos(2 phi) cos(phi)^m
        I = sp.gamma((m + b) / 2.0 + 1.0) * PI ** 0.5 / sp.gamma((m + b) / 2.0 + 1.5)
        tot = tot + binomial(float(ell), m) * binomial(0.5 * (ell + m - 1.0), ell) * g * I
    return 2.0 ** ell * tot


def angular(env, ell, slope):
    S, d = make(env)
    s = S(**d)
    if slope == 'table0' or slope == 'table-2':
        b = float(slope[5:])
        got = s.calculate_f_ell(ell, b)
        want = f_ell(env, ell, b)
        env.same('tabulated factor is real', complex(got).imag, 0.0)
        if abs(complex(got) - want) > 1e-5 * abs(want):
            env.fails(f'tabulated factor ell={ell} slope={b:g} is {complex(got).real:.5f}', f'the general formula gives {want:.6f}')
        return
    b = env.real('b', *slope)
    env.equal(f'factor ell={ell}', s.calculate_f_ell(ell, b), f_ell(env, ell, b))


def total(env, ell_max, slope, nz=1, nm=1, nk=1):
    ells = list(range(0, ell_max + 1, 2))
    u = env.arr('uell', (len(ells), nz, nm, nk), -2.0, 2.0)

    def base(C):
        class U(C):
            compute_uell_gamma_r_hankel = property(lambda s: env.hit('compute_uell_gamma_r_hankel', u * 1.0))
        env.replacing(C, 'compute_uell_gamma_r_hankel')
        return U
    b = env.real('b', *slope) if isinstance(slope, tuple) else slope
    S, d = make(env, nz, nm, base, ell_max=ell_max, gamma_1h_slope=b)
    s = S(**d)
    got = s.wkm_f_ell
    want = []
    # the angular factors are decided in 'angular'
    F = [s.calculate_f_ell(l, b).real for l in ells]
    for i in range(nz):
        want.append([[abs(sum((-1.0) ** (l // 2) * (2.0 * l + 1.0) * u[n, i, j, q] * F[n] for n, l in enumerate(ells))) for q in range(nk)] for j in range(nm)])
    env.equal('Fourier-space profile', got, env.np.array(want))
    env.same('table of profiles', s.wkm[0].shape, (nz, nm, nk))
    env.equal('table: profile', s.wkm[0], got)
    env.equal('table: redshifts', s.wkm[1], d['z_vec'])
    env.equal('table: masses', s.wkm[2], d['mass_in'])


def mnfw(env, rs, c):
    return 4.0 * PI * rs ** 3 * (env.np.log(1.0 + c) - c / (1.0 + c))


def transform(env, method, truncate=False, ell_max=2, nz=2, nm=2, slope=None, amps=True):
    b = env.real('b', -1.9, -0.1) if slope is None else slope
    gam = env.arr('gamma1h', (nz,), 1e-3, 0.02)

    def base(C):
        class G(C):
            gamma_1h_amp = property(lambda s: env.hit('gamma_1h_amp', gam * 1.0))
        env.replacing(C, 'gamma_1h_amp')
        return G
    S, d = make(env, nz, nm, base, method=method, truncate=truncate, ell_max=ell_max, gamma_1h_slope=b, nmass=nm, nk=2, n_hankel=40)
    s = S(**d)
    np = env.np
    u = s.compute_uell_gamma_r_hankel
    kv = s.k_vec
    ells = list(range(0, ell_max + 1, 2))
    if method == 'hankel':
        env.holds('k range', abs(float(kv[0]) / 1e-3 - 1.0) < 1e-9 and abs(float(kv[-1]) / 1e3 - 1.0) < 1e-9)
        want = []
        for n, l in enumerate(ells):
            H = Hankel(env, l + 0.5, 40, PI / 40)
            want.append([[list(H.transform(lambda x: np.array([profile(env, xx, d['r_s_in'][i, j], d['rvir_in'][j], gam[i], b, truncate) * (xx * PI / 2.0) ** 0.5 for xx in list(x)]), kv)[0]
                              / (kv ** 0.5 * mnfw(env, d['r_s_in'][i, j], d['c_in'][i, j]))) for j in range(nm)] for i in range(nz)])
        env.equal('radial transform', u, np.array(want))
        return
    import numpy
    fft = env.loader().library('scipy.fft')
    r = numpy.logspace(-8, 8, 512)
    dl = float(numpy.log(r[1] / r[0]))
    for n, l in enumerate(ells):
        bias = -0.5 * (n + 2.0)
        off = fft.fhtoffset(dl, mu=l + 0.5, initial=-2.0 * 2.302585092994046, bias=bias)
        k = numpy.exp(off) / r[::-1]
        for i in range(nz):
            for j in range(nm):
                f = np.array([profile(env, float(x), d['r_s_in'][i, j], d['rvir_in'][j], gam[i], b, truncate) * float(x) ** 1.5 * (PI / 2.0) ** 0.5 for x in r])
                ft = fft.fht(f, dl, mu=l + 0.5, offset=off, bias=bias) / (k ** 1.5 * mnfw(env, d['r_s_in'][i, j], d['c_in'][i, j]))
                env.equal(f'radial transform ell={l} z={i} m={j}', u[n, i, j, :], env.lin_interp(k, ft, kv))


def masses(env, nm, nmass, nz=2):
    """Mass resampling keeps every quantity on the same masses, from the lightest to the heaviest."""
    S, d = make(env, nz, nm, method='hankel', nmass=nmass)
    s = S(**d)
    m = list(s.mass)
    full = list(d['mass_in'])
    idx = []
    for v in m:
        hit = [q for q in range(nm) if (v is full[q] or (not env.sym and v == full[q]) or (env.sym and not (v - full[q]).t))]
        env.same('a given mass', len(hit), 1)
        idx.append(hit[0])
    env.same('ends kept', (idx[0], idx[-1]), (0, nm - 1))
    env.same('ascending without repetition', idx, sorted(set(idx)))
    env.holds('at least the requested number of masses', len(idx) >= nmass)
    env.equal('concentration', s.c, d['c_in'][:, idx])
    env.equal('scale radius', s.r_s, d['r_s_in'][:, idx])
    env.equal('virial radius', s.rvir, d['rvir_in'][idx])


def masses_full(env, nm=3):
    S, d = make(env, 2, nm, method='fftlog', nmass=2)
    s = S(**d)
    env.equal('mass', s.mass, d['mass_in'])
    env.equal('concentration', s.c, d['c_in'])
    env.equal('scale radius', s.r_s, d['r_s_in'])
    env.equal('virial radius', s.rvir, d['rvir_in'])


def too_few(env):
    S, d = make(env, 2, 2, method='hankel', nmass=3)
    env.raises('too few masses', lambda: S(**d).mass, ValueError)


def resample(env, method, where, nz=2, nm=2):
    nk = 3
    W = env.arr('wkm', (nz, nm, 100 if method == 'fftlog' else nk), 1e-3, 5.0)

    def base(C):
        class U(C):
            wkm_f_ell = property(lambda s: env.hit('wkm_f_ell', W * 1.0))
        env.replacing(C, 'wkm_f_ell')
        return U
    S, d = make(env, nz, nm, base, method=method, nk=nk, nmass=nm)
    s = S(**d)
    np = env.np
    kv = s.k_vec
    if where == 'nodes':
        ks = [0, 1, 2] if method == 'hankel' else [0, 1, 40, 99]
        got = s.upsampled_wkm(kv[ks], d['mass_in'])
        env.equal('computed points are reproduced', got, W[:, :, ks])
        return
    if method == 'fftlog':
        ko = np.array([5e-4, 0.011, 0.35, 7.7, 1500.0]) if where == 'const' else env.arr('kout', (1,), 0.1, 0.14)
        env.equal('linear in k', s.upsampled_wkm(ko, d['mass_in']), env.lin_interp(kv, W, ko, axis=2))
        return
    ko = np.array([5e-4, 0.5]) if where == 'const' else env.arr('kout', (2,), 2e-3, 500.0)
    mo = env.arr('mout', (2,), 1e11, 1e15)
    got = s.upsampled_wkm(ko, mo)
    lw = np.log10(W / kv ** 2)
    want = []
    for i in range(nz):
        lm = env.lin_interp(np.log10(d['mass_in']), lw[i], np.log10(mo), axis=0)
        lk = env.lin_interp(np.log10(kv), lm, np.log10(ko), axis=1)
        want.append(list(10.0 ** lk * ko ** 2))
    env.equal('log-linear in mass and k', got, np.array([[list(r) for r in w] for w in want]))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier, maxpaths=400))


for t in (False, True):
    add(radial, truncate=t)
    add(radial, truncate=t, core='given')
    add(radial, truncate=t, sign=-1)
    add(vectors, 'thorough', truncate=t)
for l in (0, 2, 4, 6, 8, 10):
    for sl in ('table0', 'table-2', (-1.99, -0.01), (0.01, 2.0)):
        add(angular, ell=l, slope=sl)
for lm in (0, 2, 6):
    for sl in (-2.0, 0.0, (-1.99, -0.01)):
        add(total, ell_max=lm, slope=sl)
add(total, ell_max=4, slope=-2.0, nz=2, nm=2, nk=2)
add(total, ell_max=10, slope=(-1.99, -0.01))
add(total, ell_max=7, slope=-2.0)
add(transform, method='hankel', ell_max=3)
add(total, 'thorough', ell_max=10, slope=-2.0, nz=2, nm=2, nk=2)
add(transform, method='fftlog', ell_max=2, nz=2, nm=1)
add(transform, method='fftlog', ell_max=0, nz=1, nm=2, truncate=True)
add(transform, 'thorough', method='fftlog', ell_max=6, nz=2, nm=2)
add(transform, 'thorough', method='fftlog', ell_max=4, nz=1, nm=2, truncate=True, slope=-2.0)
for t in (False, True):
    add(transform, method='hankel', truncate=t)
    add(transform, 'thorough', method='hankel', truncate=t, ell_max=6)
for a, b in ((5, 2), (4, 2), (3, 3), (6, 4)):
    add(masses, nm=a, nmass=b)
for a, b in ((9, 2), (8, 3), (9, 5), (7, 6), (9, 1)):
    add(masses, 'thorough', nm=a, nmass=b)
add(masses_full)
add(too_few)
for m in ('fftlog', 'hankel'):
    for wh in ('nodes', 'const', 'any'):
        add(resample, method=m, where=wh)
