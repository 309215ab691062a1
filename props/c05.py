"""C05: the non-linear halo-bias integral."""
from .common import Case, Ref, ENV_ASSUMPTIONS, BOUNDS  # noqa: F401

OUTSIDE = 'array sizes beyond the bounds; the values of the non-linear bias (C17)'
ASSUMPTIONS = ENV_ASSUMPTIONS


def call(s, B, W1, W2):
    return s.I_NL(W1, W2, s.halo_bias, s.halo_bias, s.dndlnm, s.dndlnm, s.A_term, s.mean_density0, B, s.I12, s.I21, s.I22)


def integral(env, nb=2, nz=2, nk=2, nm=3):
    """I_NL for arbitrary profiles is the double sum with the three compensation terms."""
    c = Case(env, mode='bnl', nz=nz, nk=nk, nm=nm, bnl=True)
    r = Ref(c)
    W1, W2 = env.arr('W1', (nb, nz, nk, nm), -1.0, 2.0), env.arr('W2', (nb, nz, nk, nm), -1.0, 2.0)
    got = call(c.s, c.s._beta_nl_array, W1, W2)
    want = r.out(lambda b, i, j: r.inl(i, j, lambda q: W1[b, i, j, q], lambda q: W2[b, i, j, q]), nb)
    env.equal('I_NL', got, want)


def exchange(env, nb=1, nz=1, nk=2, nm=3):
    """Exchanging the two fields together with the two masses of the bias changes nothing."""
    c = Case(env, mode='bnl', nz=nz, nk=nk, nm=nm, bnl=True)
    t = c.pk_mod.Spectra(**dict(c.kw, beta_nl=env.np.swapaxes(c.par['bnl'], 2, 3)))
    W1, W2 = env.arr('W1', (nb, nz, nk, nm), -1.0, 2.0), env.arr('W2', (nb, nz, nk, nm), -1.0, 2.0)
    env.equal('exchange', call(t, t._beta_nl_array, W2, W1), call(c.s, c.s._beta_nl_array, W1, W2))


def zero(env, what, nb=1, nz=2, nk=2, nm=3):
    """Zero bias: the spectra are those without non-linear bias (and without the two-halo damping)."""
    ia = what in ('mi', 'ii', 'gi')
    c = Case(env, mode='bnl', nb=nb, nz=nz, nk=nk, nm=nm, hod=True, ia=ia, t2='off', t2ia='off', extra=dict(beta_nl=env.np.zeros((nz, nk, nm, nm))))
    kw = dict(c.kw, nonlinear_mode=None, beta_nl=None)
    if ia:
        kw['align_params'] = dict(kw['align_params'])
    o = c.pk_mod.Spectra(**kw)
    a, b = getattr(c.s, f'power_spectrum_{what}'), getattr(o, f'power_spectrum_{what}')
    for p in ('pk_1h', 'pk_2h', 'pk_tot'):
        env.equal(f'{what} {p} with zero non-linear bias', getattr(a, p), getattr(b, p))


def linear(env, what, nb=1, nz=1, nk=2, nm=3):
    """The correction is proportional to the bias: P(2B) - P(0) = 2 (P(B) - P(0))."""
    ia = what in ('mi', 'ii', 'gi')
    c = Case(env, mode='bnl', nb=nb, nz=nz, nk=nk, nm=nm, hod=True, ia=ia, bnl=True)

    def run(B):
        kw = dict(c.kw, beta_nl=B)
        if ia:
            kw['align_params'] = dict(kw['align_params'])
        return getattr(c.pk_mod.Spectra(**kw), f'power_spectrum_{what}').pk_tot
    p0, p1, p2 = run(env.np.zeros((nz, nk, nm, nm))), run(c.par['bnl']), run(2.0 * c.par['bnl'])
    env.equal(f'{what} linear in the bias', p2 - p0, 2.0 * (p1 - p0))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


add(integral)
add(integral, nb=1, nz=1, nk=3, nm=4)
add(integral, nb=1, nz=3, nk=1, nm=2)
add(integral, 'thorough', nb=2, nz=3, nk=3, nm=5)
add(exchange)
add(exchange, nz=2, nk=1, nm=4)
add(exchange, 'thorough', nz=2, nk=2, nm=5)
for w in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
    add(zero, what=w)
    add(linear, what=w)
    add(zero, 'thorough', what=w, nb=2, nz=3, nk=2, nm=4)
# many redshifts, wavenumbers and masses, one at a time
add(integral, nb=4, nz=1, nk=1, nm=2)
add(integral, nb=1, nz=10, nk=1, nm=2)
add(integral, nb=1, nz=1, nk=12, nm=2)
add(integral, nb=1, nz=1, nk=1, nm=12)
add(exchange, nz=1, nk=1, nm=8)
