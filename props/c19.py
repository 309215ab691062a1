"""C19: selection, interpolation and dewiggling of the input matter power."""
from symx.engine import WIDE
from .common import Case, ENV_ASSUMPTIONS

WIDE.update(k0=(1e-4, 1.0), r=(1.05, 20.0), A=(1e-3, 1e4), P=(1e-6, 1e5))
ASSUMPTIONS = ENV_ASSUMPTIONS + ['scipy gaussian_filter1d is the linear map scipy itself computes (for a symbolic width: a map with unknown width-dependent weights); interp1d is piecewise-linear interpolation',
                                 'the no-wiggle transfer function is an unknown function of wavenumber and cosmology']
BOUNDS = 'redshifts <=8, wavenumbers <=12, halo-model wavenumbers <=4; powers, cosmology and grids arbitrary reals (evenly spaced logarithmic grids for dewiggling: constant ones, and k0 r^i with arbitrary k0 and r)'
OUTSIDE = 'accuracy of the discrete velocity-dispersion integral and of the smoothing on coarse grids; grids longer than the bounds'
PI = 3.141592653589793
GRIDS = {3: [0.02, 0.1, 0.5], 4: [0.01, 0.04, 0.16, 0.64], 5: [0.01, 0.03, 0.09, 0.27, 0.81]}


def logk(env, nk, kind):
    if kind == 'const':
        return env.np.array(GRIDS.get(nk) or [0.005 * 1.9 ** i for i in range(nk)])
    k0, r = env.real('k0', 0.005, 0.1), env.real('r', 1.2, 5.0)
    return env.np.array([k0 * r ** i for i in range(nk)])


def own(c, name):
    """The halo model's power at each redshift, interpolated to the requested wavenumbers."""
    e = c.env
    return e.np.array([list(e.lin_interp(c.w.kh, c.w.q(name, i), c.w.k)) for i in range(c.nz)])


def dewiggled(c, P):
    """Removing the damped wiggles of each redshift on its own."""
    env, np, k = c.env, c.env.np, c.w.k
    nk = c.nk
    dl = np.log(k[1] / k[0])
    gf = env.loader().library('scipy.ndimage').gaussian_filter1d
    C = c.s.cosmo_model
    now = [k[j] ** c.cosmo['n_s'] * np.exp(2.0 * env.opaque('lnT_nowiggle', [np.log(k)[j], C], lo=-3.0, hi=0.5)) for j in range(nk)]
    out = []
    for i in range(c.nz):
        s2 = env.simpson(np.array([P[i, j] * k[j] for j in range(nk)]), dx=dl) / (6.0 * PI ** 2)
        sm = gf(np.array([P[i, j] / now[j] for j in range(nk)]), 0.25 / dl)
        out.append([P[i, j] - (1.0 - np.exp(-k[j] ** 2 * s2)) * (P[i, j] - sm[j] * now[j]) for j in range(nk)])
    return np.array(out)


def linear(env, pk, mode=None, hmcode=None, dewiggle=False, nz=2, nk=2, nm=2, grid=None, bnl=False, nl=False):
    w = dict(k=logk(env, nk, grid)) if grid else {}
    if pk is None and (dewiggle or mode == 'hmcode'):
        # requested wavenumbers within the halo model's own (extrapolated power need not be positive)
        w['kh'] = env.np.array([0.001, 0.03, 0.3, 70.0])
    c = Case(env, mode=mode, hmcode=hmcode, pk=pk, nz=nz, nk=nk, nm=nm, bnl=bnl, nl=nl, world=w, extra=dict(dewiggle=dewiggle))
    P = c.par['pk'] if pk == 'given' else own(c, 'power')
    if dewiggle or mode == 'hmcode':
        P = dewiggled(c, P)
    env.equal('linear matter power', c.s.power_spectrum_lin.pk_tot, P[None, :, :])
    env.equal('linear matter power used by the halo model', c.s._pk_lin, P)


def nonlinear(env, nl, mode=None, response=False, nz=2, nk=2, nm=2, pk='given'):
    c = Case(env, mode=mode, pk=pk, nz=nz, nk=nk, nm=nm, nl=nl, extra=dict(response=response))
    P = c.par['nl'] if nl else own(c, 'nonlinear_power')
    env.equal('non-linear matter power', c.s._pk_nl, P)
    if response:
        env.equal('matter power of the response approach', c.s.power_spectrum_mm.pk_tot, P[None, :, :])
    if mode == 'fortuna':
        L = c.par['pk'] if pk == 'given' else own(c, 'power')
        t = c.par['t_eff']
        env.equal('effective matter power', c.s.peff, (1.0 - t) * P + t * L)


def smooth(env, nz=2, nk=4, grid='const'):
    """Spectra without wiggles are left as they are."""
    c = Case(env, nz=nz, nk=nk, nm=2, world=dict(k=logk(env, nk, grid)), extra=dict(dewiggle=True), pk=None)
    np, k = env.np, c.w.k
    A = env.arr('A', (nz,), 0.5, 50.0)
    C = c.s.cosmo_model
    P = np.array([[A[i] * k[j] ** c.cosmo['n_s'] * np.exp(2.0 * env.opaque('lnT_nowiggle', [np.log(k)[j], C], lo=-3.0, hi=0.5)) for j in range(nk)] for i in range(nz)])
    s = c.pk_mod.Spectra(**dict(c.kw, matter_power_lin=P))
    env.equal('wiggle-free power', s.power_spectrum_lin.pk_tot, P[None, :, :])


def dispersion(env, nz=2, nk=4, grid='const'):
    """Velocity dispersion per redshift, on the given wavenumbers."""
    k = logk(env, nk, grid)
    c = Case(env, nz=nz, nk=nk, nm=2, world=dict(k=k))
    P = env.arr('P', (nz, nk), 0.5, 50.0)
    np = env.np
    got = c.s.sigmaV(k, P)
    dl = np.log(k[1] / k[0])
    for i in range(nz):
        env.equal(f'dispersion squared {i}', got[i] ** 2, env.simpson(np.array([P[i, j] * k[j] for j in range(nk)]), dx=dl) / (6.0 * PI ** 2))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier, maxpaths=60, samples=2))


for pk in ('given', None):
    add(linear, pk=pk)
    add(linear, pk=pk, mode='bnl', bnl=True)
    add(linear, pk=pk, mode='fortuna', nl=True)
    add(linear, pk=pk, hmcode='mead2020')
    add(linear, pk=pk, hmcode='mead2020_feedback', nz=3, nk=3)
    for nk in (3, 4, 5):
        add(linear, pk=pk, dewiggle=True, nk=nk, grid='const')
    add(linear, pk=pk, mode='hmcode', hmcode='mead2020', nk=4, grid='const')
    add(linear, pk=pk, mode='hmcode', hmcode='mead2020_feedback', nk=3, grid='const')
    add(linear, pk=pk, mode='bnl', bnl=True, dewiggle=True, nk=3, grid='const')
    add(linear, pk=pk, dewiggle=True, nk=3, grid='any', nz=1)
    add(linear, pk=pk, dewiggle=True, nk=2)
    add(linear, 'thorough', pk=pk, dewiggle=True, nk=4, grid='any', nz=3)
    add(linear, 'thorough', pk=pk, mode='hmcode', hmcode='mead2020', dewiggle=True, nk=5, nz=3, grid='const')
for nl in (False, True):
    for r in (False, True):
        for m in (None, 'fortuna', 'bnl'):
            if m == 'fortuna' or r:
                add(nonlinear, nl=nl, mode=m, response=r) if m != 'bnl' else None
    add(nonlinear, nl=nl, mode='fortuna', pk=None, nz=3, nk=3)
for nk in (3, 4, 5):
    add(smooth, nk=nk)
    add(dispersion, nk=nk)
add(dispersion, nk=3, grid='any')
# many redshifts and wavenumbers, one at a time
for pk in ('given', None):
    add(linear, pk=pk, nz=8, nk=2)
    add(linear, pk=pk, nz=1, nk=12)
    add(linear, pk=pk, dewiggle=True, nz=6, nk=3, grid='const')
    add(linear, pk=pk, dewiggle=True, nz=1, nk=9, grid='const')
    add(linear, pk=pk, mode='hmcode', hmcode='mead2020', nz=5, nk=3, grid='const')
for nk in (8, 11):
    add(smooth, nk=nk)
    add(dispersion, nk=nk)
