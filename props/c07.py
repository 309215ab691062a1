"""C07: damping factors."""
from symx.engine import WIDE
from .common import Case, ENV_ASSUMPTIONS, BOUNDS  # noqa: F401

OUTSIDE = 'wavenumbers outside [1e-4, 1e2] h/Mpc, truncation scales outside [0.02, 5], sigma8 outside [0.3, 1.2]'
ASSUMPTIONS = ENV_ASSUMPTIONS + ['power functions with non-integer exponents and exp are monotone functions with exp(x) >= 1 + x']
WIDE['k'] = (1e-4, 1e2)
NAMES = ('one_halo_truncation', 'two_halo_truncation', 'one_halo_truncation_ia', 'two_halo_truncation_ia')
SCALES = ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia')


def flat(env, a, nz, nk):
    """Damping factor as a [redshift][wavenumber] table, whatever broadcastable shape it has."""
    if env.np.ndim(a) == 0:
        return [[a] * nk for _ in range(nz)]
    while env.np.ndim(a) > 2:
        a = a[0]
    if env.np.ndim(a) == 1:
        return [[a[j] for j in range(nk)] for _ in range(nz)]
    return [[a[i if a.shape[0] > 1 else 0][j] for j in range(nk)] for i in range(nz)]


def rng(env, label, D, rising):
    for row in D:
        for j, d in enumerate(row):
            env.le(f'{label} not negative', 0.0, d)
            env.le(f'{label} not above one', d, 1.0)
            if j:
                (env.le(f'{label} increases with k', row[j - 1], d) if rising else env.le(f'{label} decreases with k', d, row[j - 1]))


def one_halo(env, nk=2):
    c = Case(env, nz=1, nk=nk, nm=2)
    D = flat(env, c.s.one_halo_truncation, 1, nk)
    rng(env, 'one-halo damping', D, True)
    for j in range(nk):
        x = c.w.k[j] / c.par['k1']
        env.le('one-halo damping is at most (k/k0)^4', D[0][j], x ** 4)
        env.le('one-halo damping leaves small scales unchanged', 1.0, D[0][j] + x ** -4)
    env.equal('one-halo damping is one half at the truncation scale', D[0][0] * (1.0 + (c.w.k[0] / c.par['k1']) ** 4), (c.w.k[0] / c.par['k1']) ** 4)


def two_halo(env, nk=2):
    c = Case(env, nz=1, nk=nk, nm=2)
    D = flat(env, c.s.two_halo_truncation, 1, nk)
    rng(env, 'two-halo damping', D, False)
    for j in range(nk):
        x = (c.w.k[j] / 0.05699) ** 2.853
        env.le('two-halo damping leaves large scales unchanged', 1.0 - D[0][j], 0.05 * x)
        env.le('two-halo damping removes at most its fraction', 0.95, D[0][j])


def ia(env, nk=2):
    c = Case(env, nz=1, nk=nk, nm=2)
    D = flat(env, c.s.one_halo_truncation_ia, 1, nk)
    rng(env, 'IA one-halo damping', D, True)
    E = flat(env, c.s.two_halo_truncation_ia, 1, nk)
    rng(env, 'IA two-halo damping', E, False)
    for j in range(nk):
        x, y = (c.w.k[j] / c.par['k1ia']) ** 2, (c.w.k[j] / c.par['k2ia']) ** 2
        env.le('IA one-halo damping suppresses large scales', D[0][j], x)
        env.le('IA one-halo damping leaves small scales', 1.0 - D[0][j], 1.0 / (1.0 + x))
        env.le('IA two-halo damping leaves large scales', 1.0 - E[0][j], y)
        env.le('IA two-halo damping suppresses small scales', E[0][j], 1.0 / (1.0 + y))
        env.equal('IA one-halo value', D[0][j], 1.0 - env.np.exp(-x))
        env.equal('IA two-halo value', E[0][j], env.np.exp(-y))


def mead(env, nz=2, nk=2):
    c = Case(env, mode='hmcode', hmcode='mead2020', nz=nz, nk=nk, nm=2)
    s8 = env.arr('s8', (nz,), 0.3, 1.2)
    D = flat(env, c.s.one_halo_truncation_mead2020(s8), nz, nk)
    E = flat(env, c.s.two_halo_truncation_mead2020(s8), nz, nk)
    rng(env, 'HMCode one-halo damping', D, True)
    rng(env, 'HMCode two-halo damping', E, False)
    for i in range(nz):
        for j in range(nk):
            x = (c.w.k[j] / 0.05618) ** 4 * s8[i] ** 4.052
            env.equal('HMCode one-halo value', D[i][j], x / (1.0 + x))
            env.le('HMCode one-halo damping suppresses only large scales', D[i][j], x)
            y = (c.w.k[j] / 0.05699) ** 2.853 * s8[i] ** (1.089 * 2.853)
            env.equal('HMCode two-halo value', E[i][j], 1.0 - 0.2696 * s8[i] ** 0.9403 * y / (1.0 + y))
            env.le('HMCode two-halo damping leaves large scales unchanged', 1.0 - E[i][j], y)


def switch(env, off, nk=2, nz=2):
    """None disables exactly the chosen dampings."""
    c = Case(env, nz=nz, nk=nk, nm=2)
    kw = dict(c.kw, **{SCALES[q]: None for q in off})
    o = c.pk_mod.Spectra(**kw)
    one = [[1.0] * nk] * nz
    for q, n in enumerate(NAMES):
        want = one if q in off else flat(env, getattr(c.s, n), nz, nk)
        env.equal(f'{n} with {",".join(SCALES[p] for p in off)} off', env.np.array(flat(env, getattr(o, n), nz, nk)), env.np.array(want))


def spectra(env, which, off, mode=None, nz=1, nk=2, nm=3):
    """None disables exactly the chosen damping in the spectra."""
    iat = which in ('mi', 'ii', 'gi')
    c = Case(env, mode=mode, nz=nz, nk=nk, nm=nm, hod=True, ia=iat, nl=mode == 'fortuna')
    kw = dict(c.kw, **{SCALES[off]: None})
    if iat:
        kw['align_params'] = dict(kw['align_params'])
    a, b = getattr(c.s, f'power_spectrum_{which}'), getattr(c.pk_mod.Spectra(**kw), f'power_spectrum_{which}')
    D = flat(env, getattr(c.s, NAMES[off]), nz, nk)
    mine = (off == 0 and not iat) or (off == 2 and iat), (off == 1 and not iat) or (off == 3 and iat)
    for part, affected in zip(('pk_1h', 'pk_2h'), mine):
        x, y = getattr(a, part), getattr(b, part)
        want = env.np.array([[[y[0, i, j] * (D[i][j] if affected else 1.0) for j in range(nk)] for i in range(nz)]])
        env.equal(f'{which} {part} with {SCALES[off]} off', x, want)


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


for n in (2, 3):
    for f in (one_halo, two_halo, ia):
        add(f, 'quick' if n == 2 else 'thorough', nk=n)
add(mead)
add(mead, 'thorough', nz=3, nk=3)
for o in ((), (0,), (1,), (2,), (3,), (0, 1), (2, 3), (0, 1, 2, 3)):
    add(switch, off=o)
for w in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
    for o in range(4):
        add(spectra, which=w, off=o)
        if w in ('mi', 'ii', 'gi'):
            add(spectra, which=w, off=o, mode='fortuna')
add(mead, nz=8, nk=2)
for f in (one_halo, two_halo, ia):
    add(f, nk=6)
