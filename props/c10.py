"""C10: conditional observable functions."""
from symx.engine import WIDE
import os
import tempfile
from symx.world import World
from .common import Case, cosmology, ENV_ASSUMPTIONS

WIDE.update(log10_obs_norm_c=(5.0, 14.0), log10_m_ch=(8.0, 15.0), g1=(0.1, 12.0), g2=(-1.0, 3.0), sigma_log10_O_c=(0.01, 2.0), norm_s=(0.01, 5.0), pivot=(8.0, 16.0),
            alpha_s=(-3.0, 1.0), beta_s=(0.1, 6.0), b0=(-6.0, 6.0), b1=(-4.0, 6.0), b2=(-3.0, 3.0), h=(0.3, 1.5), **{f'o{b}': (5.0, 14.0) for b in range(6)}, **{f'ob{b}': (1e5, 1e14) for b in range(9)})
ASSUMPTIONS = ENV_ASSUMPTIONS + ['scipy interp1d is piecewise-linear interpolation', 'the observables file is read through numpy.loadtxt, whose result is the tabulated columns']
BOUNDS = 'halo masses <=3, redshift nodes per bin <=3, bins <=2, observable points <=4 together, and one at a time 10 masses, 8 nodes, 5 bins, 9 points; all model parameters arbitrary reals around the published ranges'
OUTSIDE = 'array sizes beyond the bounds; accuracy of the Simpson rule on coarse observable grids'
LN10 = 2.302585092994046
RANGES = dict(log10_obs_norm_c=(9.0, 11.0), log10_m_ch=(10.5, 12.5), g1=(1.0, 5.0), g2=(0.05, 0.9), sigma_log10_O_c=(0.05, 0.5), norm_s=(0.3, 1.0),
              pivot=(11.0, 13.0), alpha_s=(-1.6, -0.5), beta_s=(0.5, 3.0), b0=(-2.0, 1.0), b1=(0.2, 2.0), b2=(-0.5, 0.2))


class Model:
    """The published conditional function, element by element."""

    def __init__(self, env, par, m):
        self.env, self.p, self.m = env, par, m
        self.np = env.np
        p = par
        self.mean = [10.0 ** p['log10_obs_norm_c'] * self.np.exp(p['g1'] * (self.np.log(x) - p['log10_m_ch'] * LN10))
                     / (1.0 + x / 10.0 ** p['log10_m_ch']) ** (p['g1'] - p['g2']) for x in m]
        self.phi = [10.0 ** (p['b0'] + p['b1'] * (self.np.log10(x) - p['pivot']) + p['b2'] * (self.np.log10(x) - p['pivot']) ** 2) for x in m]

    def cen(self, o, q):
        s, np = self.p['sigma_log10_O_c'], self.np
        return np.exp(-(np.log10(o / self.mean[q]) ** 2) / (2.0 * s ** 2)) / (2.5066282746310002 * LN10 * s * o)

    def sat(self, o, q):
        os_ = self.p['norm_s'] * self.mean[q]
        x = o / os_
        return self.phi[q] / os_ * x ** self.p['alpha_s'] * self.np.exp(-x ** self.p['beta_s'])


def grids(env, lo, hi, nobs):
    return [10.0 ** (lo + (hi - lo) * (t / (nobs - 1))) for t in range(nobs)]


def build(env, nb, nzb, nm, nobs, unit='1/h^2', fixed=False, deco=False, file=False, nz=2, sym=False):
    World(env, nz=1, nk=1, nm=1)
    hod = env.load('onepower.hod')
    m = env.grid('m', nm, 1e11, 1e15)
    z = env.grid('z', nz, 0.0, 3.0) if sym else env.np.array([0.1 + 0.35 * i for i in range(nz)])
    d = {k: v for k, v in zip(RANGES, (9.95, 11.24, 3.18, 0.245, 0.157, 0.562, 12.0, -1.18, 2, -1.17, 1.53, -0.217))}
    par = d if fixed else {k: env.real(k, *r) for k, r in RANGES.items()}
    dn, hb = env.arr('dn', (nz, nm), 0.1, 2.0), env.arr('hb', (nz, nm), 0.5, 3.0)
    h = env.real('h', 0.5, 0.9)

    class C:
        pass
    cosmo = C()
    cosmo.h = h
    kw = {} if fixed else dict(par)
    Ac = As = None
    if deco:
        Ac, As = env.real('A_cen', -1.0, 1.0), env.real('A_sat', -1.0, 1.0)
        kw.update(A_cen=Ac, A_sat=As)
    st = dict(observables_file=None, nz=nzb, nobs=nobs, observable_h_unit=unit)
    if file:
        zb = [list(env.grid('zt', nzb, 0.0, 3.0))] if sym else [[0.05 + 0.4 * i for i in range(nzb)]]
        lim = [[env.grid(f'ob{i}', 2, 1e8, 1e12) for i in range(nzb)]]
        path = '/nonexistent/observables.txt'
        rows = [[zb[0][i], lim[0][i][0], lim[0][i][1]] for i in range(nzb)]
        if env.sym:
            from symx import loader
            loader.FILES[path] = rows
        else:
            env.scratch = tempfile.mkdtemp(prefix='verif')
            path = os.path.join(env.scratch, 'observables.txt')
            with open(path, 'w') as f:
                for r in rows:
                    f.write(' '.join(repr(float(x)) for x in r) + '\n')
        st['observables_file'] = path
        lo = [[env.np.log10(lim[0][i][0]) for i in range(nzb)]]
        hi = [[env.np.log10(lim[0][i][1]) for i in range(nzb)]]
    else:
        g = [env.grid(f'o{b}', 2, 8.0, 12.0) for b in range(nb)]
        zmin, zmax = [0.05, 0.1, 0.2, 0.02, 0.3][:nb], [0.6, 0.45, 0.5, 0.9, 0.7][:nb]
        if sym:
            zr = [env.grid(f'zr{b}', 2, 0.0, 3.0) for b in range(nb)]
            zmin, zmax = [x[0] for x in zr], [x[1] for x in zr]
        zb = [[zmin[b] + (zmax[b] - zmin[b]) * (i / (nzb - 1)) for i in range(nzb)] for b in range(nb)]
        st.update(obs_min=env.np.array([x[0] for x in g]), obs_max=env.np.array([x[1] for x in g]), zmin=env.np.array(zmin), zmax=env.np.array(zmax))
        lo, hi = [[g[b][0]] * nzb for b in range(nb)], [[g[b][1]] * nzb for b in range(nb)]
    c = hod.Cacciato(cosmo=cosmo, mass=m, dndlnm=dn, halo_bias=hb, z_vec=z, hod_settings=st, **kw)
    obs = [[grids(env, lo[b][i], hi[b][i], nobs) for i in range(nzb)] for b in range(nb)]
    return c, Model(env, par, m), obs, zb, z, dn, h, Ac, As


def cof(env, nb=2, nzb=2, nm=2, nobs=3, fixed=False, file=False, sym=False):
    c, M, obs, zb, z, dn, h, _, _ = build(env, nb, nzb, nm, nobs, fixed=fixed, file=file, sym=sym)
    R = lambda f: env.np.array([[[[f(obs[b][i][t], q) for t in range(nobs)] for q in range(nm)] for i in range(nzb)] for b in range(nb)])  # noqa: E731
    env.equal('observable grid', c.obs, env.np.array([[[obs[b][i]] for i in range(nzb)] for b in range(nb)]))
    cen, sat = R(M.cen), R(M.sat)
    env.equal('central conditional function', c.COF_cen, cen)
    env.equal('satellite conditional function', c.COF_sat, sat)
    env.equal('total conditional function', c.COF, cen + sat)


def simp(env, ys, xs):
    return env.simpson(env.np.array(ys), x=env.np.array(xs))


def back(env, z, zb, T):
    """T[b][i][q] interpolated to the model redshifts."""
    return env.np.array([env.lin_interp(env.np.array(zb[b]), env.np.array(T[b]), z) for b in range(len(zb))])


def occupation(env, nb=1, nzb=2, nm=2, nobs=3, deco=False, fixed=False, file=False, sym=False):
    c, M, obs, zb, z, dn, h, Ac, As = build(env, nb, nzb, nm, nobs, deco=deco, fixed=fixed, file=file, sym=sym)
    # integrals of the code's own conditional functions (their values are decided separately)
    cc, cs = c.COF_cen, c.COF_sat
    X = lambda a: [[[simp(env, [a[b, i, q, t] for t in range(nobs)], obs[b][i]) for q in range(nm)] for i in range(nzb)] for b in range(nb)]  # noqa: E731
    Nc, Ns = X(cc), X(cs)
    if deco:
        Nc = [[[v + Ac * env.np.where(v < 1.0 - v, v, 1.0 - v) for v in r] for r in p] for p in Nc]
        Ns = [[[v * (1.0 + As) for v in r] for r in p] for p in Ns]
    wc, ws = back(env, z, zb, Nc), back(env, z, zb, Ns)
    env.equal('centrals are the observable integral', c.hod_cen, wc)
    env.equal('satellites are the observable integral', c.hod_sat, ws)
    env.equal('total occupation', c.hod, wc + ws)


def stars(env, unit, nb=1, nzb=2, nm=2, nobs=3, file=False, sym=False):
    c, M, obs, zb, z, dn, h, _, _ = build(env, nb, nzb, nm, nobs, unit=unit, file=file, sym=sym)
    fac = h if unit == '1/h^2' else 1.0
    cc, cs = c.COF_cen, c.COF_sat
    X = lambda a: [[[simp(env, [a[b, i, q, t] * obs[b][i][t] for t in range(nobs)], obs[b][i]) / M.m[q] * fac for q in range(nm)] for i in range(nzb)] for b in range(nb)]  # noqa: E731
    wc, ws = back(env, z, zb, X(cc)), back(env, z, zb, X(cs))
    env.equal('central stellar fraction', c.stellar_fraction_cen, wc)
    env.equal('satellite stellar fraction', c.stellar_fraction_sat, ws)
    env.equal('stellar fraction', c.stellar_fraction, wc + ws)


def none(env, model):
    """Models without a conditional function have no stars."""
    World(env, nz=1, nk=1, nm=1)
    hod = env.load('onepower.hod')
    m = env.grid('m', 2, 1e11, 1e15)
    from . import c08
    h = getattr(hod, model)(cosmo=None, mass=m, dndlnm=env.arr('dn', (3, 2), 0.1, 2.0), halo_bias=env.arr('hb', (3, 2), 0.1, 2.0), z_vec=env.np.array([0.1, 0.2, 0.3]),
                            hod_settings=c08.settings(env, 2, 2))
    for a in ('stellar_fraction', 'stellar_fraction_cen', 'stellar_fraction_sat'):
        env.equal(a, getattr(h, a), env.np.zeros((2, 3, 2)))


def smf(env, nb=1, nzb=2, nm=2, nobs=3, nz=2, sym=False):
    """The reported observable function, through the Spectra object."""
    c = Case(env, nz=nz, nk=1, nm=nm, world={} if sym else dict(z=env.np.array([0.1 + 0.35 * i for i in range(nz)])))
    par = {k: env.real(k, *r) for k, r in RANGES.items()}
    g = [env.grid(f'o{b}', 2, 8.0, 12.0) for b in range(nb)]
    zmin, zmax = [0.05, 0.1, 0.2, 0.02, 0.3][:nb], [0.6, 0.45, 0.5, 0.9, 0.7][:nb]
    if sym:
        zr = [env.grid(f'zr{b}', 2, 0.0, 3.0) for b in range(nb)]
        zmin, zmax = [x[0] for x in zr], [x[1] for x in zr]
    zb = [[zmin[b] + (zmax[b] - zmin[b]) * (i / (nzb - 1)) for i in range(nzb)] for b in range(nb)]
    st = dict(observables_file=None, nz=nzb, nobs=nobs, observable_h_unit='1/h', obs_min=env.np.array([x[0] for x in g]), obs_max=env.np.array([x[1] for x in g]),
              zmin=env.np.array(zmin), zmax=env.np.array(zmax))
    s = c.pk_mod.Spectra(**dict(c.kw, compute_observable=True, obs_settings=st, hod_params=dict(par), hod_model='Cacciato'))
    obs = [[grids(env, g[b][0], g[b][1], nobs) for i in range(nzb)] for b in range(nb)]
    M = Model(env, par, c.w.m)
    dn = env.np.array([list(c.w.q('dndlnm', i)) for i in range(nz)])
    DN = [env.lin_interp(c.w.z, dn, env.np.array(zb[b])) for b in range(nb)]
    R = lambda f: env.np.array([[[LN10 * obs[b][i][t] * env.simpson(env.np.array([f(obs[b][i][t], q) * DN[b][i, q] / c.w.m[q] for q in range(nm)]), x=c.w.m)  # noqa: E731
                                  for t in range(nobs)] for i in range(nzb)] for b in range(nb)])
    cen, sat = R(M.cen), R(M.sat)
    env.equal('central observable function', s.obs_func_cen, cen)
    env.equal('satellite observable function', s.obs_func_sat, sat)
    env.equal('observable function', s.obs_func, cen + sat)
    env.equal('observable values', s.obs_func_obs, env.np.array(obs))
    env.equal('observable redshifts', s.obs_func_z, env.np.array(zb))


def no_smf(env, hod):
    """No observable function without a conditional model or when it is not asked for."""
    c = Case(env, nz=1, nk=1, nm=2, hod='cof' if hod == 'Cacciato' else True)
    s = c.pk_mod.Spectra(**dict(c.kw, compute_observable=hod != 'Cacciato'))
    for n in ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z'):
        env.same(n, getattr(s, n), None)


def matter_stars(env, nzb=2, nm=2, nobs=3, nz=2):
    """Stellar fractions used for galaxies and for matter come from their own settings."""
    c = Case(env, hmcode='fit', nz=nz, nk=1, nm=nm, world=dict(z=env.np.array([0.1 + 0.35 * i for i in range(nz)])))
    hod = env.load('onepower.hod')
    par = {k: env.real(k, *r) for k, r in RANGES.items()}

    def st(tag, nb):
        g = [env.grid(f'{tag}{b}', 2, 8.0, 12.0) for b in range(nb)]
        return dict(observables_file=None, nz=nzb, nobs=nobs, observable_h_unit='1/h^2', obs_min=env.np.array([x[0] for x in g]), obs_max=env.np.array([x[1] for x in g]),
                    zmin=env.np.array([0.05, 0.1][:nb]), zmax=env.np.array([0.6, 0.45][:nb]))
    A, B = st('g', 2), st('mm', 1)
    s = c.pk_mod.Spectra(**dict(c.kw, hod_settings=A, hod_settings_mm=B, hod_params=dict(par), hod_model='Cacciato'))
    dn = env.np.array([list(c.w.q('dndlnm', i)) for i in range(nz)])
    hb = env.np.array([list(c.w.q('halo_bias', i)) for i in range(nz)])

    class C:
        h = c.cosmo['h0']
    for a, S in (('fstar', A), ('fstar_mm', B)):
        ref = hod.Cacciato(cosmo=C, mass=c.w.m, dndlnm=dn, halo_bias=hb, z_vec=c.w.z, hod_settings=S, **par)
        env.equal(a, getattr(s, a), ref.stellar_fraction)


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


add(cof)
add(cof, fixed=True, nb=1, nzb=3, nobs=2)
add(cof, file=True, nb=1, nzb=2)
add(cof, 'thorough', nb=2, nzb=3, nm=3, nobs=4)
for d in (False, True):
    add(occupation, deco=d)
    add(occupation, deco=d, fixed=True, nb=2)
    add(occupation, deco=d, file=True, nzb=3)
for u in ('1/h', '1/h^2'):
    add(stars, unit=u)
    add(stars, unit=u, nb=2)
    add(stars, unit=u, file=True, nzb=3)
for M in ('Simple', 'Zehavi', 'Zheng', 'Zhai'):
    add(none, model=M)
add(smf)
add(smf, 'thorough', nb=2, nm=3)
for M in ('Cacciato', 'other'):
    add(no_smf, hod=M)
add(matter_stars)
# many bins, redshift nodes, observable points and masses, one at a time
add(cof, nb=5, nzb=2, nm=2, nobs=2)
add(cof, nb=1, nzb=8, nm=2, nobs=2)
add(cof, nb=1, nzb=2, nm=10, nobs=2)
add(cof, nb=1, nzb=2, nm=2, nobs=9)
add(cof, file=True, nb=1, nzb=7)
add(occupation, deco=True, nb=4)
add(stars, unit='1/h', nb=4)
add(stars, unit='1/h^2', nb=4)
# arbitrary redshifts
add(cof, sym=True, file=True, nb=1)
for f in (False, True):
    add(occupation, sym=True, file=f)
    add(stars, sym=True, unit='1/h', file=f)
add(occupation, sym=True, nb=2)
add(smf, sym=True)
add(smf, sym=True, nb=2)
