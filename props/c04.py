"""C04: response mode."""
from .common import Case, ENV_ASSUMPTIONS, BOUNDS  # noqa: F401

OUTSIDE = 'array sizes beyond the bounds'
ASSUMPTIONS = ENV_ASSUMPTIONS + ['arbitrary pluggable occupation and alignment models']


def case(env, mode, hmcode, nb, nz, nk, nm, given, ia=True):
    c = Case(env, mode=mode, hmcode=hmcode, nb=nb, nz=nz, nk=nk, nm=nm, hod=True, ia=ia, bnl=mode == 'bnl', nl=given)
    a = c.s
    b = c.pk_mod.Spectra(**dict(c.kw, response=True, **({'align_params': dict(c.kw['align_params'])} if ia else {})))
    if given:
        nl = c.par['nl']
    else:
        # the halo model's own non-linear power at the requested k
        rows = [env.lin_interp(c.w.kh, c.w.q('nonlinear_power', i), c.w.k) for i in range(nz)]
        nl = env.np.array([[row[j] for j in range(nk)] for row in rows])
    return c, a, b, nl


def matter(env, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3, given=True):
    c, a, b, nl = case(env, mode, hmcode, nb, nz, nk, nm, given)
    r = b.power_spectrum_mm
    env.equal('mm total is the supplied power', r.pk_tot, nl[None, :, :])
    zero = env.np.zeros((1, nz, nk))
    env.equal('mm one-halo', r.pk_1h, zero)
    env.equal('mm two-halo', r.pk_2h, zero)


def ratio(env, which, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3, given=True, first='off'):
    c, a, b, nl = case(env, mode, hmcode, nb, nz, nk, nm, given, ia=which in ('mi', 'ii', 'gi'))
    name = f'power_spectrum_{which}'
    if first == 'on':
        B = getattr(b, name)
        A = getattr(a, name)
    else:
        A = getattr(a, name)
        B = getattr(b, name)
    mm = a.power_spectrum_mm.pk_tot
    rat = [[nl[i, j] / mm[0, i, j] for j in range(nk)] for i in range(nz)]
    for part in ('pk_1h', 'pk_2h', 'pk_tot'):
        x, y = getattr(A, part), getattr(B, part)
        env.equal(f'{which} {part} rescaled by the matter ratio', y, env.np.array([[[x[n, i, j] * rat[i][j] for j in range(nk)] for i in range(nz)] for n in range(nb)]))
    if A.galaxy_linear_bias is not None or B.galaxy_linear_bias is not None:
        env.equal(f'{which} bias unchanged', B.galaxy_linear_bias, A.galaxy_linear_bias)
    # asking again does not rescale twice
    env.equal(f'{which} asked again', getattr(b, name).pk_tot, B.pk_tot)


def off(env, which, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3):
    """Without response the supplied non-linear power has no influence outside the Fortuna mode."""
    ia = which in ('mi', 'ii', 'gi')
    c = Case(env, mode=mode, hmcode=hmcode, nb=nb, nz=nz, nk=nk, nm=nm, hod=True, ia=ia, bnl=mode == 'bnl', nl=True)
    kw = dict(c.kw)
    kw.pop('matter_power_nl')
    if ia:
        kw['align_params'] = dict(kw['align_params'])
    A, B = (getattr(s, f'power_spectrum_{which}') for s in (c.s, c.pk_mod.Spectra(**kw)))
    for part in ('pk_1h', 'pk_2h', 'pk_tot'):
        env.equal(f'{which} {part} does not depend on the non-linear power', getattr(A, part), getattr(B, part))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


for given in (True, False):
    for mode, hm in ((None, None), ('bnl', None), ('fortuna', None), ('hmcode', 'mead2020')):
        add(matter, mode=mode, hmcode=hm, given=given)
for w in ('gg', 'gm', 'mi', 'ii', 'gi'):
    add(ratio, which=w, mode=None, nb=2, nz=2, nk=1)
    add(ratio, which=w, mode=None, given=False, first='on', nz=1)
    add(ratio, which=w, mode='fortuna', nz=1)
    add(ratio, which=w, mode='bnl', nz=1, nk=1)
    add(ratio, 'thorough', which=w, mode='bnl', nz=2, nk=2, nb=2)
    add(ratio, which=w, mode='hmcode', hmcode='mead2020', nz=1)
    add(ratio, 'thorough', which=w, mode=None, hmcode='mead2020_feedback', nb=2, nz=2, nk=2)
for w in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
    add(off, which=w)
    add(off, which=w, mode='bnl', nz=1)
    add(off, which=w, mode='hmcode', hmcode='mead2020', nz=1)
# many bins, redshifts, wavenumbers and masses, one at a time
for w in ('gg', 'gm', 'mi', 'ii', 'gi'):
    add(ratio, which=w, mode=None, nb=4, nz=1, nk=1)
    add(ratio, which=w, mode=None, nb=1, nz=8, nk=1)
    add(ratio, which=w, mode=None, nb=1, nz=1, nk=10)
