"""C08: halo occupation functions."""
from symx.engine import WIDE
from symx.world import World

WIDE.update({**{n: (8.0, 17.0) for n in ('log10_Mmin', 'log10_Msat', 'log10_M0', 'log10_M1', 'log10_Mcut')}, 'alpha': (1e-3, 10.0), 'sigma': (1e-3, 5.0), 'dn': (1e-20, 1e3), 'hb': (1e-3, 1e2), 'm': (1e6, 1e18)})
ASSUMPTIONS = ['interpolation of the redshift-independent occupations uses the piecewise-linear model of scipy interp1d',
               'erf is a strictly increasing odd function with values in (-1, 1); all values are reals in the stated ranges']
BOUNDS = 'halo masses <=4, model redshifts <=3, bins <=3, redshift nodes per bin <=3 together, and one at a time 12 masses, 6 redshifts, 5 bins, 8 nodes; masses 1e11..1e15, thresholds 10^11.5..10^14.5, slopes 0.1..2, scatter 0 or 0.05..1, assembly bias -1..1'
OUTSIDE = 'slope exactly 0 (0^0 below the threshold), array sizes beyond the bounds, assembly-bias amplitudes outside [-1, 1]'
PARS = {
    'Simple': ('log10_Mmin', 'log10_Msat', 'alpha'),
    'Zehavi': ('log10_Mmin', 'log10_Msat', 'alpha'),
    'Zheng': ('log10_Mmin', 'log10_M0', 'log10_M1', 'sigma', 'alpha'),
    'Zhai': ('log10_Mmin', 'log10_Msat', 'log10_Mcut', 'sigma', 'alpha'),
}
LN10 = 2.302585092994046


def settings(env, nb, nzb, lo=0.1, step=0.2):
    return dict(observables_file=None, obs_min=env.np.array([8.0 + b for b in range(nb)]), obs_max=env.np.array([9.0 + b for b in range(nb)]),
                zmin=env.np.array([lo + 0.05 * b for b in range(nb)]), zmax=env.np.array([lo + step + 0.25 * b for b in range(nb)]), nz=nzb, nobs=3, observable_h_unit='1/h^2')


def params(env, model, nb, scalar, sigma0=()):
    p = {}
    for n in PARS[model]:
        lo, hi = {'alpha': (0.1, 2.0), 'sigma': (0.05, 1.0)}.get(n, (11.5, 14.5))
        v = [0.0 if n == 'sigma' and b in sigma0 else env.real(f'{n}[{b}]', lo, hi) for b in range(nb)]
        p[n] = v[0] if scalar else v
    return p


def occupation(env, model, p, b, m, Ac, As):
    """Published mean occupations of one halo mass."""
    g = {k: (v[b] if isinstance(v, list) else v) for k, v in p.items()}
    np = env.np
    Mmin = 10.0 ** g['log10_Mmin']
    step = np.where(m >= Mmin, 1.0, 0.0)
    if model in ('Simple', 'Zehavi') or (not hasattr(g['sigma'], 't') and g['sigma'] == 0.0):
        nc = step
    else:
        nc = 0.5 * (1.0 + env.erf(np.log(m / Mmin) / (LN10 * g['sigma'])))
    if Ac is not None:
        nc = nc + Ac * np.where(nc < 1.0 - nc, nc, 1.0 - nc)
    if model == 'Zheng':
        M0, M1 = 10.0 ** g['log10_M0'], 10.0 ** g['log10_M1']
        x = np.where(m >= M0, m - M0, 0.0) / M1
        ns = np.where(x > 0, x, 0.0) ** g['alpha']
    else:
        ns = (m / 10.0 ** g['log10_Msat']) ** g['alpha']
        if model == 'Simple':
            ns = ns * nc
        if model == 'Zhai':
            ns = ns * np.exp(-10.0 ** g['log10_Mcut'] / m)
    if As is not None:
        ns = ns * (1.0 + As)
    return nc, ns


def build(env, model, nb, nz, nm, nzb, scalar, deco, sigma0=(), cls=None, sym=False):
    World(env, nz=1, nk=1, nm=1)
    hod = env.load('onepower.hod')
    m = env.grid('m', nm, 1e11, 1e15)
    z = env.grid('z', nz, 0.0, 3.0) if sym else env.np.array([0.05 + 0.3 * i for i in range(nz)])
    st = settings(env, nb, nzb)
    if sym:
        r = [env.grid(f'zr{b}', 2, 0.0, 3.0) for b in range(nb)]
        st.update(zmin=env.np.array([x[0] for x in r]), zmax=env.np.array([x[1] for x in r]))
    p = params(env, model, nb, scalar, sigma0)
    Ac = env.real('A_cen', -1.0, 1.0, special=[-1.0, 0.0, 1.0]) if deco else None
    As = env.real('A_sat', -1.0, 1.0, special=[-1.0, 0.0, 1.0]) if deco else None
    kw = dict(p)
    if deco:
        kw.update(A_cen=Ac, A_sat=As)
    h = (cls or getattr(hod, model))(cosmo=None, mass=m, dndlnm=env.arr('dn', (nz, nm), 0.1, 2.0), halo_bias=env.arr('hb', (nz, nm), 0.5, 3.0),
                                     z_vec=z, hod_settings=st, **kw)
    return h, m, p, Ac, As


def formula(env, model, nb=2, nz=2, nm=2, nzb=2, scalar=False, deco=False, sigma0=(), sym=False):
    h, m, p, Ac, As = build(env, model, nb, nz, nm, nzb, scalar, deco, sigma0, sym=sym)
    ref = [[occupation(env, model, p, b, m[q], Ac, As) for q in range(nm)] for b in range(nb)]
    for label, got, f in (('centrals', h.hod_cen, lambda t: t[0]), ('satellites', h.hod_sat, lambda t: t[1]), ('all', h.hod, lambda t: t[0] + t[1])):
        env.equal(f'{model} {label}', got, env.np.array([[[f(ref[b][q]) for q in range(nm)] for i in range(nz)] for b in range(nb)]))


def physical(env, model, deco, nb=1, nz=1, nm=2, nzb=2, sigma0=()):
    h, m, p, Ac, As = build(env, model, nb, nz, nm, nzb, False, deco, sigma0)
    c, s = h.hod_cen, h.hod_sat
    for b in range(nb):
        for q in range(nm):
            env.le(f'{model} centrals not negative', 0.0, c[b, 0, q])
            env.le(f'{model} centrals not above one', c[b, 0, q], 1.0)
            env.le(f'{model} satellites not negative', 0.0, s[b, 0, q])
            if q and not deco:
                env.le(f'{model} centrals do not fall with mass', c[b, 0, q - 1], c[b, 0, q])
                env.le(f'{model} satellites do not fall with mass', s[b, 0, q - 1], s[b, 0, q])


def defaults(env, model):
    """Published default parameters are the ones used when none are given."""
    World(env, nz=1, nk=1, nm=1)
    hod = env.load('onepower.hod')
    m = env.grid('m', 2, 1e11, 1e15)
    cls = getattr(hod, model)
    mk = lambda **kw: cls(cosmo=None, mass=m, dndlnm=env.arr('dn', (1, 2), 0.1, 2.0), halo_bias=env.arr('hb', (1, 2), 0.5, 3.0), z_vec=env.np.array([0.2]),  # noqa: E731
                          hod_settings=settings(env, 1, 2), **kw)
    d = {'Simple': (12.0, 13.0, 1.0), 'Zehavi': (12.0, 13.0, 1.0), 'Zheng': (12.0, 12.0, 13.0, 0.15, 1.0), 'Zhai': (13.68, 14.87, 12.32, 0.82, 0.41)}[model]
    a, b = mk(), mk(**dict(zip(PARS[model], d)))
    env.equal(f'{model} default centrals', a.hod_cen, b.hod_cen)
    env.equal(f'{model} default satellites', a.hod_sat, b.hod_sat)
    # one parameter at a time: the others keep their defaults
    for n, v in zip(PARS[model], d):
        x = env.real('x_' + n, *({'alpha': (0.1, 2.0), 'sigma': (0.05, 1.0)}.get(n, (11.5, 14.5))))
        u, w = mk(**{n: x}), mk(**dict(zip(PARS[model], d), **{n: x}))
        env.equal(f'{model} centrals with {n}', u.hod_cen, w.hod_cen)
        env.equal(f'{model} satellites with {n}', u.hod_sat, w.hod_sat)


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


for M in PARS:
    add(formula, model=M)
    add(formula, model=M, scalar=True, nb=1, nz=1, nm=3, nzb=3)
    add(formula, model=M, deco=True, nb=2, nz=1, nm=2)
    add(formula, 'thorough', model=M, deco=True, nb=3, nz=3, nm=4, nzb=3)
    for deco in (False, True):
        add(physical, model=M, deco=deco)
    add(defaults, model=M)
for M in ('Zheng', 'Zhai'):
    add(formula, model=M, sigma0=(0,), nb=2)
    add(formula, model=M, sigma0=(0, 1), nb=2, deco=True, nz=1)
    add(physical, model=M, deco=True, sigma0=(0,))
for M in PARS:
    add(formula, model=M, sym=True, nb=1, nz=2, nm=2, nzb=2)
    add(formula, model=M, sym=True, nb=2, nz=2, nm=2, nzb=3, deco=True)
# many bins, redshifts, redshift nodes and masses, one at a time
for M in PARS:
    add(formula, model=M, nb=5, nz=1, nm=2, nzb=2)
    add(formula, model=M, nb=1, nz=6, nm=1, nzb=2)
    add(formula, model=M, nb=1, nz=1, nm=2, nzb=8)
    add(formula, model=M, nb=1, nz=1, nm=12, nzb=2, deco=True)
