"""C09: number densities, fractions, biases and mean masses."""
from symx.engine import WIDE
from symx.world import World
from . import c08

WIDE.update({'Nc': (1e-12, 1.0), 'Ns': (1e-12, 1e4)})
ASSUMPTIONS = ['scipy interp1d is piecewise-linear interpolation; scipy Simpson is a weighted sum with unknown grid-dependent weights',
               'occupations are arbitrary positive functions of bin, redshift and mass (a pluggable model), or those of a shipped model']
BOUNDS = 'halo masses <=3, model redshifts <=3, bins <=2, redshift nodes per bin <=3 on every layout, and 5 bins of 5 nodes, 8 model redshifts and 9 masses (4 bins of 9 nodes and 5 masses) on two of them; redshift grids arbitrary (symbolic) or several fixed layouts'
OUTSIDE = 'array sizes beyond the bounds'
LAY = {
    'inside': ([0.1, 0.4, 0.9], [0.05, 0.0], [1.2, 1.0]),       # model redshifts inside the bins
    'edges': ([0.2, 0.5, 0.8], [0.2, 0.1], [0.8, 0.5]),         # on the edges and beyond them
    'narrow': ([0.1, 0.6, 1.1], [0.3, 0.7], [0.45, 0.95]),      # bins between the model redshifts
    'first': ([0.25, 0.5, 0.75], [0.25, 0.3], [0.75, 0.9]),     # one bin on the model redshifts, the other not
    'second': ([0.25, 0.5, 0.75], [0.3, 0.25], [0.6, 0.75]),
    'both': ([0.25, 0.5, 0.75], [0.25, 0.25], [0.75, 0.75]),
    'many': ([0.0625, 0.125, 0.25, 0.375, 0.5, 0.625, 0.875, 1.125], [0.0, 0.125, 0.375, 0.25, 0.5], [1.5, 0.4375, 0.75, 0.6875, 1.0]),
    'many, one on the grid': ([0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0, 1.125], [0.25, 0.125, 0.125, 0.375], [0.75, 0.625, 1.125, 0.875]),
    'wide': ([0.4, 0.5, 0.6], [0.0, 0.45], [1.5, 0.55]),        # bins beyond the model redshifts
}


def build(env, layout, nb, nz, nzb, nm, model='any'):
    World(env, nz=1, nk=1, nm=1)
    hod = env.load('onepower.hod')
    m = env.grid('m', nm, 1e11, 1e15)
    if layout == 'symbolic':
        z = env.grid('z', nz, 0.05, 1.5)
        zr = [env.grid(f'zr{b}', 2, 0.0, 2.0) for b in range(nb)]
        zmin, zmax = [r[0] for r in zr], [r[1] for r in zr]
    else:
        a, b, c = LAY[layout]
        z, zmin, zmax = env.np.array(a[:nz]), b[:nb], c[:nb]
    dn, hb = env.arr('dn', (nz, nm), 0.1, 2.0), env.arr('hb', (nz, nm), 0.5, 3.0)
    st = dict(observables_file=None, obs_min=env.np.array([8.0] * nb), obs_max=env.np.array([9.0] * nb), zmin=env.np.array(zmin), zmax=env.np.array(zmax),
              nz=nzb, nobs=3, observable_h_unit='1/h^2')
    base = hod.HaloOccupationDistribution
    kw = {}
    if model == 'any' and hasattr(base, '_compute_hod_cen') and hasattr(base, '_compute_hod_sat'):
        N = env.arr('Nc', (nb, nzb, nm), 0.1, 1.0), env.arr('Ns', (nb, nzb, nm), 0.1, 4.0)

        class Any(base):
            _defaults = {}
            _compute_hod_cen = property(lambda s: N[0] * 1.0)
            _compute_hod_sat = property(lambda s: N[1] * 1.0)
        cls = Any
        occ = lambda b, i, q: (N[0][b, i, q], N[1][b, i, q])  # noqa: E731
    else:
        model = 'Zhai' if model == 'any' else model
        kw = c08.params(env, model, nb, False)
        cls = getattr(hod, model)
        memo = {}

        def occ(b, i, q):
            if (b, q) not in memo:
                memo[b, q] = c08.occupation(env, model, kw, b, m[q], None, None)
            return memo[b, q]
    h = cls(cosmo=None, mass=m, dndlnm=dn, halo_bias=hb, z_vec=z, hod_settings=st, **kw)
    zb = [[zmin[b] + (zmax[b] - zmin[b]) * (i / (nzb - 1)) for i in range(nzb)] for b in range(nb)]
    DN = [env.lin_interp(z, dn, env.np.array(zb[b])) for b in range(nb)]
    HB = [env.lin_interp(z, hb, env.np.array(zb[b])) for b in range(nb)]
    return h, m, z, zb, DN, HB, occ


def integ(env, m, f):
    return env.simpson(env.np.array([f(q) for q in range(len(m))]), x=m)


def table(env, nb, nzb, f):
    return [[f(b, i) for i in range(nzb)] for b in range(nb)]


def back(env, z, zb, T, fill=None):
    """Interpolate the bin tables to the model redshifts."""
    return env.np.array([list(env.lin_interp(env.np.array(zb[b]), env.np.array(T[b]), z, left=fill, right=fill)) for b in range(len(zb))])


SEL = {'cen': lambda t: t[0], 'sat': lambda t: t[1], 'tot': lambda t: t[0] + t[1]}


def integrals(env, layout, what, nb=2, nz=3, nzb=2, nm=2, model='any'):
    h, m, z, zb, DN, HB, occ = build(env, layout, nb, nz, nzb, nm, model)
    num = {k: table(env, nb, nzb, lambda b, i: integ(env, m, lambda q: f(occ(b, i, q)) * DN[b][i, q] / m[q])) for k, f in SEL.items()}
    if what == 'density':
        for k, a in (('cen', 'number_density_cen'), ('sat', 'number_density_sat'), ('tot', 'number_density')):
            env.equal(a, getattr(h, a), back(env, z, zb, num[k]))
        env.equal('densities add up', h.number_density_cen + h.number_density_sat, h.number_density)
    elif what == 'fraction':
        for k, a in (('cen', 'f_c'), ('sat', 'f_s')):
            env.equal(a, getattr(h, a), back(env, z, zb, [[num[k][b][i] / num['tot'][b][i] for i in range(nzb)] for b in range(nb)], 0.0))
        env.equal('fractions add up to one inside the bin', h.f_c + h.f_s, back(env, z, zb, [[1.0] * nzb] * nb, 0.0))
    elif what == 'mass':
        M = {k: table(env, nb, nzb, lambda b, i: integ(env, m, lambda q: f(occ(b, i, q)) * DN[b][i, q])) for k, f in SEL.items()}
        for k, a in (('cen', 'avg_halo_mass_cen'), ('sat', 'avg_halo_mass_sat'), ('tot', 'avg_halo_mass')):
            env.equal(a, getattr(h, a), back(env, z, zb, M[k], 0.0))
    elif what == 'bias':
        for k, a in (('cen', 'galaxy_linear_bias_cen'), ('sat', 'galaxy_linear_bias_sat'), ('tot', 'galaxy_linear_bias')):
            B = table(env, nb, nzb, lambda b, i: integ(env, m, lambda q: SEL[k](occ(b, i, q)) * HB[b][i, q] * DN[b][i, q] / m[q]) / num['tot'][b][i])
            env.equal(a, getattr(h, a), back(env, z, zb, B))
        env.equal('bias contributions add up', h.galaxy_linear_bias_cen + h.galaxy_linear_bias_sat, h.galaxy_linear_bias)
    elif what == 'occupation':
        for k, a in (('cen', 'hod_cen'), ('sat', 'hod_sat'), ('tot', 'hod')):
            got = getattr(h, a)
            for q in range(nm):
                env.equal(f'{a} at mass {q}', got[:, :, q], back(env, z, zb, table(env, nb, nzb, lambda b, i: SEL[k](occ(b, i, q)))))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


for w in ('density', 'fraction', 'mass', 'bias', 'occupation'):
    add(integrals, layout='many', what=w, nb=5, nz=8, nzb=5, nm=9)
    add(integrals, layout='many, one on the grid', what=w, nb=4, nz=9, nzb=9, nm=5)
    for L in LAY:
        if L.startswith('many'):
            continue
        same = L in ('first', 'second', 'both')
        add(integrals, layout=L, what=w, nzb=3 if same else 2)
        add(integrals, 'thorough', layout=L, what=w, nzb=3, nm=3)
        if same and L != 'both':
            add(integrals, 'thorough', layout=L, what=w, nz=2, nzb=2, model='Zhai')
    add(integrals, layout='symbolic', what=w, nb=1, nz=2, nzb=2)
    for M in ('Zhai', 'Zehavi'):
        add(integrals, layout='edges', what=w, model=M)
    add(integrals, layout='symbolic', what=w, nb=1, nz=2, nzb=3, nm=3)
    add(integrals, layout='symbolic', what=w, nb=2, nz=3, nzb=2, nm=2)
