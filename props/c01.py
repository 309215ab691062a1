"""C01: matter-matter power spectrum."""
from .common import Case, Ref, result, ENV_ASSUMPTIONS, BOUNDS  # noqa: F401

OUTSIDE = 'array sizes beyond the bounds (the formulas are uniform in the sizes), floating-point overflow, dewiggling inside the HMCode mode beyond its use of the dewiggled linear power (C19)'
ASSUMPTIONS = ENV_ASSUMPTIONS


def mm(env, mode, hmcode, nz=2, nk=2, nm=3, t1='on', t2='on', hod=None):
    hod = hod or hmcode == 'fit'
    c = Case(env, mode=mode, hmcode=hmcode, nz=nz, nk=nk, nm=nm, bnl=mode == 'bnl', t1=t1, t2=t2, hod=hod, nl=mode == 'fortuna')
    r = Ref(c)
    s = c.s
    res = s.power_spectrum_mm
    prof = lambda i, j, q: r.W1(0, i, j, q, mm=True)  # noqa: E731
    one = lambda i, j: r.memo(('1h', i, j), lambda: r.one_halo(i, lambda q: prof(i, j, q) * prof(i, j, q)))  # noqa: E731
    if mode == 'hmcode':
        # the linear power is the dewiggled one; its construction is C19's subject
        pl = s.power_spectrum_lin.pk_tot
        p1 = r.out(lambda b, i, j: one(i, j) * r.d1m(i, j))
        p2 = r.out(lambda b, i, j: pl[0, i, j] * r.d2m(i, j))

        def tot(b, i, j):
            a = 1.875 * env.np.exp(r.ne[i] * 0.47187687362741587)
            d = r.k[j] ** 3 / (2.0 * 3.141592653589793 ** 2)
            return ((d * p1[b, i, j]) ** a + (d * p2[b, i, j]) ** a) ** (1.0 / a) / d
        result(env, 'mm', res, p1, p2, r.out(tot))
    else:
        p1 = r.out(lambda b, i, j: one(i, j) * r.d1(j))
        if mode == 'bnl':
            p2 = r.out(lambda b, i, j: r.plin(i, j) * (r.Im(i, j) ** 2 + r.inl(i, j, lambda q: r.W(i, j, q), lambda q: r.W(i, j, q))))
        else:
            p2 = r.out(lambda b, i, j: r.plin(i, j) * r.Im(i, j) ** 2 * r.d2(j))
        result(env, 'mm', res, p1, p2, p1 + p2)
    env.equal('reading again gives the same', s.power_spectrum_mm.pk_tot, res.pk_tot)


HARNESSES = []
for mode, hm in ((None, None), (None, 'mead2020'), (None, 'mead2020_feedback'), (None, 'fit'), ('bnl', None), ('bnl', 'mead2020_feedback'), ('bnl', 'fit'),
                 ('fortuna', None), ('fortuna', 'mead2020_feedback'), ('hmcode', 'mead2020'), ('hmcode', 'mead2020_feedback')):
    HARNESSES.append(dict(name=f'mm-{mode}-{hm}', fn=mm, cfg=dict(mode=mode, hmcode=hm)))
HARNESSES += [
    dict(name='mm-None-fit-conditional', fn=mm, cfg=dict(mode=None, hmcode='fit', hod='cof')),
    dict(name='mm-bnl-fit-conditional', fn=mm, cfg=dict(mode='bnl', hmcode='fit', hod='cof')),
    dict(name='mm-None-no-trunc', fn=mm, cfg=dict(mode=None, hmcode=None, t1='off', t2='off')),
    dict(name='mm-None-no-1h-trunc', fn=mm, cfg=dict(mode=None, hmcode=None, t1='off')),
    dict(name='mm-None-no-2h-trunc', fn=mm, cfg=dict(mode='fortuna', hmcode=None, t2='off')),
    dict(name='mm-bnl-no-trunc', fn=mm, cfg=dict(mode='bnl', hmcode=None, t1='off', t2='off')),
    dict(name='mm-None-1-3-4', fn=mm, cfg=dict(mode=None, hmcode=None, nz=1, nk=3, nm=4)),
    dict(name='mm-hmcode-3-1-4', fn=mm, cfg=dict(mode='hmcode', hmcode='mead2020_feedback', nz=3, nk=2, nm=4), tier='thorough'),
    dict(name='mm-None-3-3-4', fn=mm, cfg=dict(mode=None, hmcode='mead2020_feedback', nz=3, nk=3, nm=4), tier='thorough'),
    dict(name='mm-bnl-2-2-4', fn=mm, cfg=dict(mode='bnl', hmcode=None, nz=2, nk=2, nm=4), tier='thorough'),
]
# many redshifts, wavenumbers and masses, one at a time
for mode, hm in ((None, None), (None, 'fit'), ('hmcode', 'mead2020_feedback'), ('bnl', None)):
    for nz, nk, nm in ((12, 1, 2), (1, 16, 2), (1, 1, 24)) if mode != 'bnl' else ((6, 1, 2), (1, 8, 2), (1, 1, 8)):
        if mode == 'hmcode':
            if nk > 2:
                continue               # evenly spaced wavenumbers: C19
            nk = 2
        HARNESSES.append(dict(name=f'mm-{mode}-{hm}-{nz}-{nk}-{nm}', fn=mm, cfg=dict(mode=mode, hmcode=hm, nz=nz, nk=nk, nm=nm)))
