"""C02: galaxy-galaxy and galaxy-matter power spectra."""
from .common import Case, Ref, result, ENV_ASSUMPTIONS, BOUNDS  # noqa: F401

OUTSIDE = 'array sizes beyond the bounds; which occupations, fractions and densities the occupation model returns (C08-C10)'
ASSUMPTIONS = ENV_ASSUMPTIONS + ['the occupation model is an arbitrary pluggable one: any occupations, fractions and central/satellite densities (total density = sum)']


def gg(env, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3, poisson=None, t1='on', t2='on'):
    c = Case(env, mode=mode, hmcode=hmcode, nb=nb, nz=nz, nk=nk, nm=nm, hod=True, bnl=mode == 'bnl', nl=mode == 'fortuna', poisson=poisson, t1=t1, t2=t2)
    r, s = Ref(c), c.s
    res = s.power_spectrum_gg
    cs = lambda b, i, j: r.one_halo(i, lambda q: r.pc(b, i, q) * r.ps(b, i, j, q))  # noqa: E731
    ss = lambda b, i, j: r.one_halo(i, lambda q: r.poisson(q) * r.ps(b, i, j, q) ** 2)  # noqa: E731
    p1 = r.out(lambda b, i, j: (2.0 * cs(b, i, j) + ss(b, i, j)) * r.d1(j), nb)
    pl = s.power_spectrum_lin.pk_tot[0] if mode == 'hmcode' else c.par['pk']
    g = lambda b, i, j: r.Ic(b, i) + r.Is(b, i, j)  # noqa: E731
    if mode == 'bnl':
        f = lambda b, i, j: (lambda q: r.pc(b, i, q) + r.ps(b, i, j, q))  # noqa: E731
        p2 = r.out(lambda b, i, j: pl[i, j] * (g(b, i, j) ** 2 + r.inl(i, j, f(b, i, j), f(b, i, j))), nb)
    else:
        p2 = r.out(lambda b, i, j: pl[i, j] * g(b, i, j) ** 2 * r.d2(j), nb)
    c.check_occupation()
    result(env, 'gg', res, p1, p2, p1 + p2, env.np.sqrt(r.out(lambda b, i, j: g(b, i, j) ** 2, nb)))


def gm(env, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3, pointmass=False, t1='on', t2='on', hod=True):
    c = Case(env, mode=mode, hmcode=hmcode, nb=nb, nz=nz, nk=nk, nm=nm, hod=hod, bnl=mode == 'bnl', nl=mode == 'fortuna', t1=t1, t2=t2, extra=dict(pointmass=pointmass))
    r, s = Ref(c), c.s
    res = s.power_spectrum_gm
    p1 = r.out(lambda b, i, j: r.one_halo(i, lambda q: (r.pc(b, i, q) + r.ps(b, i, j, q)) * r.W1(b, i, j, q, pointmass)) * r.d1(j), nb)
    pl = s.power_spectrum_lin.pk_tot[0] if mode == 'hmcode' else c.par['pk']
    g = lambda b, i, j: (r.Ic(b, i) + r.Is(b, i, j)) * r.Im(i, j)  # noqa: E731
    if mode == 'bnl':
        f = lambda b, i, j: (lambda q: r.pc(b, i, q) + r.ps(b, i, j, q))  # noqa: E731
        p2 = r.out(lambda b, i, j: pl[i, j] * (g(b, i, j) + r.inl(i, j, f(b, i, j), lambda q: r.W(i, j, q))), nb)
    else:
        p2 = r.out(lambda b, i, j: pl[i, j] * g(b, i, j) * r.d2(j), nb)
    c.check_occupation()
    result(env, 'gm', res, p1, p2, p1 + p2, env.np.sqrt(r.out(g, nb)))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


add(gg, mode=None, nb=2, poisson='power_law')
add(gg, mode=None, hmcode='mead2020_feedback', poisson='constant')
add(gg, mode='bnl', nb=2, nz=1, poisson='power_law')
add(gg, mode='bnl', nz=2, nk=2, poisson='constant')
add(gg, mode='fortuna', poisson='power_law')
add(gg, mode='hmcode', hmcode='mead2020', poisson='power_law')
add(gg, mode=None, t1='off', t2='off')
add(gg, mode=None, nz=3, nk=1, nm=4, poisson='power_law')
add(gg, mode='bnl', t1='off')
add(gg, 'thorough', mode=None, nb=2, nz=3, nk=3, nm=4, poisson='power_law')
add(gg, 'thorough', mode='bnl', nb=2, nz=2, nk=2, nm=4, poisson='power_law')
add(gm, mode=None, nb=2)
add(gm, mode=None, hmcode='fit', nb=2)
add(gm, mode=None, pointmass=True, nb=2)
add(gm, mode=None, hmcode='fit', nb=2, nz=1, hod='cof')
add(gm, mode='bnl', pointmass=True, nz=1, hod='cof')
add(gm, mode=None, hmcode='mead2020_feedback')
add(gm, mode=None, hmcode='mead2020')
add(gm, mode=None, hmcode='mead2020', pointmass=True)
add(gm, mode=None, hmcode='mead2020_feedback', pointmass=True)
add(gm, mode='bnl', nb=2, nz=1)
add(gm, mode='bnl', hmcode='fit')
add(gm, mode='fortuna')
add(gm, mode='hmcode', hmcode='mead2020_feedback')
add(gm, mode='hmcode', hmcode='mead2020')
add(gm, mode=None, t1='off', t2='off')
add(gm, mode=None, nz=3, nk=1, nm=4)
add(gm, 'thorough', mode=None, hmcode='fit', nb=2, nz=3, nk=3, nm=4)
add(gm, 'thorough', mode='bnl', hmcode='fit', nb=2, nz=2, nk=2, nm=4)
# many bins, redshifts, wavenumbers and masses, one at a time
for f in (gg, gm):
    add(f, mode=None, nb=5, nz=1, nk=1, nm=2)
    add(f, mode=None, nb=1, nz=12, nk=1, nm=2)
    add(f, mode=None, nb=1, nz=1, nk=16, nm=2)
    add(f, mode=None, nb=1, nz=1, nk=1, nm=24)
    add(f, mode='bnl', nb=4, nz=1, nk=1, nm=2)
    add(f, mode='bnl', nb=1, nz=6, nk=1, nm=2)
    add(f, mode='bnl', nb=1, nz=1, nk=8, nm=2)
    add(f, mode='bnl', nb=1, nz=1, nk=1, nm=8)
