"""C18: upsampled and combined spectra."""
from symx.engine import WIDE
from .c13 import toy_spectra, MODES, PARTS
from symx.world import keyable

WIDE.update(zin=(0.0, 10.0), kin=(1e-4, 100.0), zout=(0.0, 12.0), kout=(1e-5, 500.0), a1=(1e-3, 5.0), a2=(5.1, 100.0))
ASSUMPTIONS = ['the two halo models are stand-ins whose spectra are arbitrary functions of all their parameters; hmf\'s clone and update are the real code', 'scipy interp1d(linear) is piecewise-linear interpolation with the chosen '
               'treatment outside the range', 'real arithmetic stands for floating point (relative tolerance 1e-9 per term; replays use 1e-6)']
BOUNDS = 'input redshifts <=3, input wavenumbers <=3, output redshifts and wavenumbers <=3, bins <=2, fraction nodes <=3 together, and one at a time 9 input redshifts, 12 input wavenumbers, 8 output points, 5 bins; values, grids and fractions arbitrary reals; all six spectra and three components'
OUTSIDE = 'larger grids; parameters_1/2 dictionaries with other content than the toy models\''


def node(env, grid, n, lo, hi, name):
    return env.grid(name, n, lo, hi) if grid == 'any' else env.np.array(list(grid)[:n])


def build(env, two, frac, nz=2, nk=2, nb=1, grid=((0.1, 0.6, 1.4), (0.02, 0.3, 4.0)), out=((0.05, 0.4, 2.0), (0.01, 0.9, 8.0)), ext='extrapolate', given=False, fnodes=(0.0, 0.5, 1.5)):
    Toy = toy_spectra(env, nz, nk, nb)
    up = env.load('onepower.add').UpsampledSpectra
    z, k = node(env, grid[0], nz, 0.05, 1.5, 'zin'), node(env, grid[1], nk, 0.01, 5.0, 'kin')
    if out == 'nodes':
        zo, ko = z * 1.0, k * 1.0
    else:
        zo, ko = node(env, out[0], 3 if out[0] == 'any' else len(out[0]), 0.02, 2.0, 'zout'), node(env, out[1], 3 if out[1] == 'any' else len(out[1]), 0.005, 9.0, 'kout')
    p1 = dict(z_vec=z, k_vec=k, amplitude=env.real('a1', 0.1, 5.0), hod_params=dict(a=env.real('h1', 0.1, 1.0), b=env.real('h2', 0.1, 1.0)))
    p2 = dict(amplitude=env.real('a2', 5.1, 9.0), hod_params=dict(a=env.real('h3', 1.1, 2.0)))
    fz = f = None
    if frac:
        fz = env.grid('fz', fnodes, 0.0, 3.0) if isinstance(fnodes, int) else env.np.array(list(fnodes))
        f = env.arr('fraction', (len(fz),), 0.0, 1.0, special=[0.0, 1.0]) if frac == 'any' else env.np.array(frac)
    kw = dict(z=zo, k=ko, fraction_z=fz, fraction=f, extrapolate_option=ext)
    cp = lambda p: {a: dict(b) if isinstance(b, dict) else b for a, b in p.items()}  # noqa: E731
    if given:
        kw['model'] = Toy(**cp(p1))
        kw['model_1_params'] = None
    else:
        kw['model_1_params'] = cp(p1)
    kw['model_2_params'] = cp(p2) if two else None
    s = up(**kw)
    A = Toy(**cp(p1))
    q = cp(p1)
    q['amplitude'] = p2['amplitude']
    q['hod_params'].update(p2['hod_params'])
    B = Toy(**q) if two else None
    return s, A, B, z, k, zo, ko, fz, f


def resample(env, P, z, k, zo, ko, ext):
    np = env.np
    if ext == 'extrapolate':
        a = env.lin_interp(z, P, zo, axis=1)
    else:
        a = env.lin_interp(z, P, zo, axis=1, left=ext, right=ext)
    return env.lin_interp(np.log10(k), a, np.log10(ko), axis=2)


def combine(env, two, frac, modes=MODES, parts=PARTS, **cfg):
    s, A, B, z, k, zo, ko, fz, f = build(env, two, frac, **cfg)
    ext = cfg.get('ext', 'extrapolate')
    s.results(list(modes), list(parts))
    np = env.np
    F = env.lin_interp(fz, f, zo)[:, None] if frac else 1.0
    for m in modes:
        for c in parts:
            P1 = getattr(getattr(A, f'power_spectrum_{m}'), f'pk_{c}')
            r = resample(env, P1, z, k, zo, ko, ext)
            if m != 'mm':
                p = 1 if m in ('gm', 'mi') else 2
                w = F ** p * r
                if two and frac:
                    w = w + (1.0 - F) ** p * resample(env, getattr(getattr(B, f'power_spectrum_{m}'), f'pk_{c}'), z, k, zo, ko, ext)
                r = w
            env.equal(f'{m} {c}', getattr(getattr(s, f'power_spectrum_{m}'), f'pk_{c}'), r)
            if cfg.get('out') == 'nodes' and (m == 'mm' or not frac):
                env.equal(f'{m} {c} at the original points', getattr(getattr(s, f'power_spectrum_{m}'), f'pk_{c}'), P1)
    for m in MODES:
        if m not in modes:
            env.same(f'{m} not requested', hasattr(s, f'power_spectrum_{m}'), False)
    for m in modes:
        for c in PARTS:
            if c not in parts:
                env.same(f'{m} {c} not requested', getattr(getattr(s, f'power_spectrum_{m}'), f'pk_{c}'), None)
    if frac:
        env.equal('fraction of the first population', s.frac_1, F[:, 0])
        env.equal('fractions add up', s.frac_1 + s.frac_2, 1.0 + 0.0 * F[:, 0])


def twice(env):
    """Requests one after another return what a single request returns."""
    s, A, B, z, k, zo, ko, fz, f = build(env, True, 'any')
    t = build(env, True, 'any')[0]
    s.results(['gg'], ['tot'])
    s.results(['gm', 'mm'], ['1h'])
    s.results(['gg', 'ii'], ['1h', '2h'])
    t.results(['gg', 'gm', 'mm', 'ii'], list(PARTS))
    for m, cs in (('gg', ('1h', '2h')), ('gm', ('1h',)), ('mm', ('1h',)), ('ii', ('1h', '2h'))):
        for c in cs:
            env.equal(f'{m} {c}', getattr(getattr(s, f'power_spectrum_{m}'), f'pk_{c}'), getattr(getattr(t, f'power_spectrum_{m}'), f'pk_{c}'))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier, maxpaths=200, samples=2))


for two in (False, True):
    add(combine, two=two, frac=None)
    add(combine, two=two, frac='any')
    add(combine, two=two, frac='any', nb=2, nz=3, nk=3)
    add(combine, two=two, frac='any', out='nodes', nz=3, nk=3)
    add(combine, two=two, frac='any', given=True)
    for e in (0.0, 2.5):
        add(combine, two=two, frac='any', ext=e)
add(combine, two=False, frac=None, out='nodes', nz=3, nk=3)
add(combine, two=False, frac=None, grid=('any', 'any'), out='nodes', modes=('gg',), parts=('tot',))
add(combine, two=False, frac=None, grid=('any', (0.02, 0.3)), modes=('gg',), parts=('tot',), out=((0.05, 0.4, 2.0), (0.01, 0.9)))
add(combine, two=False, frac=None, grid=((0.1, 0.6), 'any'), modes=('gg',), parts=('tot',))
add(combine, two=True, frac='any', out=('any', (0.01, 0.9)), modes=('gm',), parts=('1h',))
add(combine, two=True, frac='any', out=((0.05, 0.4), 'any'), modes=('ii',), parts=('2h',))
add(combine, two=True, frac='any', out=('any', 'any'), grid=('any', 'any'), modes=('gg',), parts=('2h',), tier='thorough')
for m, p in ((('gg',), ('tot',)), (('mm', 'gi'), ('1h', '2h')), (('mi', 'gm', 'ii'), ('2h',))):
    add(combine, two=True, frac='any', modes=m, parts=p)
add(twice)
add(combine, 'thorough', two=True, frac='any', nb=2, nz=3, nk=3, ext=1.0)
# many bins, redshifts and wavenumbers, one at a time
add(combine, two=True, frac='any', nb=5, modes=('gg', 'mi'), parts=('tot',))
add(combine, two=True, frac='any', nz=9, grid=(tuple(0.1 + 0.15 * i for i in range(9)), (0.02, 0.3)), modes=('gm', 'ii'), parts=('1h',), out='nodes')
add(combine, two=True, frac='any', nk=12, grid=((0.1, 0.6), tuple(0.02 * 1.7 ** i for i in range(12))), modes=('gi', 'mm'), parts=('2h',), out='nodes')
add(combine, two=True, frac='any', modes=('gi', 'gm'), parts=('2h',), out=((0.0, 0.1, 0.15, 0.3, 0.45, 0.55, 0.7, 1.2), (0.001, 0.02, 0.05, 0.1, 0.4, 0.9, 3.0, 20.0)))
# redshifts of the fractions
for fn in (2, (0.3, 0.9), (0.0, 0.1, 0.4, 0.5, 0.9, 1.3, 2.5), (0.05, 0.4, 2.0)):
    add(combine, two=True, frac='any', fnodes=fn, modes=('gm', 'gi'), parts=('tot',))
    add(combine, two=False, frac='any', fnodes=fn, modes=('mi', 'gg'), parts=('1h',))
add(combine, two=True, frac='any', fnodes=3, modes=('ii',), parts=('tot',))
