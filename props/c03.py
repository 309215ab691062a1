"""C03: intrinsic-alignment power spectra."""
from .common import Case, Ref, result, ENV_ASSUMPTIONS, BOUNDS  # noqa: F401

OUTSIDE = 'array sizes beyond the bounds; the satellite alignment profile and the amplitudes themselves (C15, C16)'
ASSUMPTIONS = ENV_ASSUMPTIONS + ['arbitrary pluggable occupation model; arbitrary central amplitude per redshift and satellite profile per redshift, mass and k']


def case(env, mode, hmcode, nb, nz, nk, nm, align, trunc, pointmass=False):
    t = dict(t1ia='on', t2ia='on')
    if trunc == 'off':
        t = dict(t1ia='off', t2ia='off')
    elif trunc == '1off':
        t = dict(t1ia='off', t2ia='on')
    elif trunc == '2off':
        t = dict(t1ia='on', t2ia='off')
    a = {None: {}, 'nocen': dict(beta_cen=None), 'nosat': dict(beta_sat=None), 'nopiv_c': dict(mpivot_cen=None, central_ia_depends_on='constant'),
         'nopiv_s': dict(mpivot_sat=None, satellite_ia_depends_on='constant')}[align]
    c = Case(env, mode=mode, hmcode=hmcode, nb=nb, nz=nz, nk=nk, nm=nm, hod=True, ia=True, bnl=mode == 'bnl', nl=mode == 'fortuna', align=a, extra=dict(pointmass=pointmass), **t)
    r, s = Ref(c), c.s
    pl = s.power_spectrum_lin.pk_tot[0] if mode == 'hmcode' else c.par['pk']
    return c, r, s, pl


def mi(env, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3, align=None, trunc='on', pointmass=False):
    c, r, s, pl = case(env, mode, hmcode, nb, nz, nk, nm, align, trunc, pointmass)
    res = s.power_spectrum_mi
    p1 = r.out(lambda b, i, j: -1.0 * r.one_halo(i, lambda q: r.as_(b, i, j, q) * r.W1(b, i, j, q, pointmass)) * r.d1ia(j), nb)
    if mode == 'fortuna':
        p2 = r.out(lambda b, i, j: -1.0 * c.V['f_c'][b, i] * r.peff(i, j) * r.C1(i) * r.rho[i] / c.w.growth(i) * r.d2ia(j), nb)
    elif mode == 'bnl':
        p2 = r.out(lambda b, i, j: -1.0 * pl[i, j] * ((r.Ica(b, i) + r.Isa(b, i, j)) * r.Im(i, j)
                   + r.inl(i, j, lambda q: r.ac(b, i, q) + r.as_(b, i, j, q), lambda q: r.W(i, j, q))), nb)
    else:
        p2 = r.out(lambda b, i, j: -1.0 * pl[i, j] * (r.Ica(b, i) + r.Isa(b, i, j)) * r.Im(i, j) * r.d2ia(j), nb)
    result(env, 'mi', res, p1, p2, p1 + p2)


def ii(env, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3, align=None, trunc='on'):
    c, r, s, pl = case(env, mode, hmcode, nb, nz, nk, nm, align, trunc)
    res = s.power_spectrum_ii
    p1 = r.out(lambda b, i, j: r.one_halo(i, lambda q: r.as_(b, i, j, q) ** 2) * r.d1ia(j), nb)
    if mode == 'fortuna':
        p2 = r.out(lambda b, i, j: c.V['f_c'][b, i] ** 2 * r.peff(i, j) * (r.C1(i) * r.rho[i] / c.w.growth(i)) ** 2 * r.d2ia(j), nb)
    else:
        def two(b, i, j):
            C, S = r.Ica(b, i), r.Isa(b, i, j)
            t = C * C + S * S + C * S
            if mode == 'bnl':
                ac, a_s = (lambda q: r.ac(b, i, q)), (lambda q: r.as_(b, i, j, q))
                t = t + r.inl(i, j, ac, ac) + r.inl(i, j, a_s, a_s) + r.inl(i, j, ac, a_s)
                return pl[i, j] * t
            return pl[i, j] * t * r.d2ia(j)
        p2 = r.out(two, nb)
    result(env, 'ii', res, p1, p2, p1 + p2)


def gi(env, mode=None, hmcode=None, nb=1, nz=2, nk=2, nm=3, align=None, trunc='on'):
    c, r, s, pl = case(env, mode, hmcode, nb, nz, nk, nm, align, trunc)
    res = s.power_spectrum_gi
    p1 = r.out(lambda b, i, j: r.one_halo(i, lambda q: r.pc(b, i, q) * r.as_(b, i, j, q)) * r.d1ia(j), nb)
    if mode == 'fortuna':
        p2 = r.out(lambda b, i, j: r.peff(i, j) * r.Ic(b, i) * r.C1(i) * r.rho[i] / c.w.growth(i) * r.d2ia(j), nb)
    elif mode == 'bnl':
        p2 = r.out(lambda b, i, j: pl[i, j] * (r.Ic(b, i) * (r.Ica(b, i) + r.Isa(b, i, j))
                   + r.inl(i, j, lambda q: r.ac(b, i, q) + r.as_(b, i, j, q), lambda q: r.pc(b, i, q))), nb)
    else:
        p2 = r.out(lambda b, i, j: pl[i, j] * r.Ic(b, i) * (r.Ica(b, i) + r.Isa(b, i, j)) * r.d2ia(j), nb)
    result(env, 'gi', res, p1, p2, p1 + p2)


def plumbing(env, nz=2, nk=2, nm=3):
    """The alignment object is built from this model's own redshifts, masses, concentrations and radii."""
    c, r, s, pl = case(env, None, None, 1, nz, nk, nm, None, 'on')
    s.wkm_sat
    o = c.ia['seen']['obj']
    env.equal('alignment k', c.ia['seen']['args'][0], c.w.k)
    env.equal('alignment mass', c.ia['seen']['args'][1], c.w.m)
    env.equal('mass_in', o.mass_in, c.w.m)
    env.equal('z_vec', o.z_vec, c.w.z)
    env.equal('c_in', o.c_in, env.np.array([c.w.q('cmz_relation', i, 'cen') for i in range(nz)]))
    env.equal('r_s_in', o.r_s_in, env.np.array([env.arr(f'r_s_cen@{i}', (nm,), 0.05, 0.5) for i in range(nz)]))
    env.equal('rvir_in', o.rvir_in, env.arr('rvir@0', (nm,), 0.5, 5.0))
    env.equal('wkm order', s.wkm_sat[0], env.np.array([[[c.ia['wkm'][i, q, j] for q in range(nm)] for j in range(nk)] for i in range(nz)]))
    for n in ('beta_cen', 'beta_sat'):
        env.equal(n, getattr(o, n), c.par['align'][n])
    for n in ('mpivot_cen', 'mpivot_sat'):
        env.equal(n, getattr(o, n), 10.0 ** c.par['align'][n])


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


add(plumbing)
for f in (mi, ii, gi):
    add(f, mode=None, nb=2)
    add(f, mode=None, trunc='off')
    add(f, mode=None, trunc='1off', align='nocen')
    add(f, mode=None, trunc='2off', align='nosat')
    add(f, mode=None, align='nopiv_c')
    add(f, mode=None, align='nopiv_s')
    add(f, mode='fortuna', nb=2)
    add(f, mode='fortuna', trunc='2off')
    add(f, mode='bnl', nb=2, nz=1)
    add(f, mode='bnl', nz=2, nk=2)
    add(f, mode='hmcode', hmcode='mead2020')
    add(f, mode=None, nz=3, nk=1, nm=4)
    add(f, 'thorough', mode=None, nb=2, nz=3, nk=3, nm=4)
    add(f, 'thorough', mode='bnl', nb=2, nz=2, nk=2, nm=4)
    add(f, 'thorough', mode='fortuna', nb=2, nz=3, nk=3, nm=4)
add(mi, mode=None, hmcode='fit', nb=2)
add(mi, mode=None, pointmass=True, nb=2)
add(mi, mode=None, hmcode='mead2020_feedback')
add(mi, mode='hmcode', hmcode='mead2020_feedback', pointmass=True)
add(mi, mode='bnl', hmcode='fit')
add(mi, mode='fortuna', hmcode='mead2020_feedback')
# many bins, redshifts, wavenumbers and masses, one at a time
for f in (mi, ii, gi):
    for mode in (None, 'fortuna', 'bnl'):
        b = mode == 'bnl'
        add(f, mode=mode, nb=4, nz=1, nk=1, nm=2)
        add(f, mode=mode, nb=1, nz=6 if b else 12, nk=1, nm=2)
        add(f, mode=mode, nb=1, nz=1, nk=8 if b else 16, nm=2)
        add(f, mode=mode, nb=1, nz=1, nk=1, nm=8 if b else 24)
