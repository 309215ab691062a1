"""C06: matter profiles and feedback fractions."""
from .common import Case, Ref, ENV_ASSUMPTIONS, BOUNDS  # noqa: F401

OUTSIDE = 'the shape of the profile at finite k (third-party); behaviour when the stellar fraction exceeds the baryon budget (the formula then gives a negative gas fraction)'
ASSUMPTIONS = ENV_ASSUMPTIONS + ['range and monotonicity claims assume a stellar fraction not above the baryon fraction']


def large_scale(env, nz=2, nk=2, nm=3):
    c = Case(env, nz=nz, nk=nk, nm=nm)
    r, s = Ref(c), c.s
    for n in ('matter_profile', 'matter_profile_2h'):
        p = getattr(s, n)
        env.equal(f'{n} k->0 is mass over mean density', p[0, :, 0, :], env.np.array([[r.m[q] / r.rho[i] for q in range(nm)] for i in range(nz)]))
        env.equal(f'{n}', p, env.np.array([[[[r.W(i, j, q) for q in range(nm)] for j in range(nk)] for i in range(nz)]]))


def fractions(r, i, q, fs, mb):
    return r.c.cosmo['omega_c'] / r.om + r.fgas(i, q, mb, fs) + fs


def agn(r, i):
    th = r.c.cosmo['log10T_AGN'] - 7.8
    return (2.01 - 0.3 * th) * 0.01 * 10.0 ** (r.z[i] * (0.409 + 0.0224 * th)), 10.0 ** (13.87 + 1.81 * th + r.z[i] * (0.195 * th - 0.108))


def feedback(env, nz=2, nk=2, nm=3):
    c = Case(env, hmcode='mead2020_feedback', nz=nz, nk=nk, nm=nm)
    r, s = Ref(c), c.s
    p = s.matter_profile_with_feedback
    env.equal('feedback profile k->0 is the retained mass', p[0, :, 0, :], env.np.array([[r.m[q] / r.rho[i] * fractions(r, i, q, *agn(r, i)) for q in range(nm)] for i in range(nz)]))
    env.equal('feedback profile', p, env.np.array([[[[r.W_feedback(i, j, q) for q in range(nm)] for j in range(nk)] for i in range(nz)]]))
    env.equal('stellar fraction', s.fs(c.w.z), env.np.array([agn(r, i)[0] for i in range(nz)]))


def fit(env, nb=2, nz=2, nk=2, nm=3):
    c = Case(env, hmcode='fit', nb=nb, nz=nz, nk=nk, nm=nm)
    r, s = Ref(c), c.s
    fs = env.arr('fs', (nb, nz, nm), 0.0, 0.2)
    p = s.matter_profile_with_feedback_stellar_fraction_from_obs(fs)
    mb = c.par['mb']
    env.equal('fit profile k->0 is the retained mass', p[:, :, 0, :], env.np.array([[[r.m[q] / r.rho[i] * fractions(r, i, q, fs[b, i, q], mb) for q in range(nm)] for i in range(nz)] for b in range(nb)]))
    env.equal('fit profile', p, env.np.array([[[[r.W_fit(i, j, q, fs[b, i, q]) for q in range(nm)] for j in range(nk)] for i in range(nz)] for b in range(nb)]))


def budget(env):
    """Ranges: 0 <= f_gas <= baryon budget left, increasing with mass; total retained mass never exceeds one."""
    c = Case(env, hmcode='fit', nz=1, nk=1, nm=3)
    s = c.s
    oc, ob = c.cosmo['omega_c'], c.cosmo['omega_b']
    t = env.real('star_share', 0.0, 1.0, special=[0.0, 1.0])
    fb = ob / (oc + ob)
    fs = t * fb
    mb = env.real('mb0', 1e13, 1e15)
    g = s.fg_fit(c.w.m, mb, fs)
    env.le('gas fraction not negative', 0.0 * g, g)
    env.le('gas fraction within budget', g, (fb - fs) * env.np.ones(3))
    env.le('gas fraction grows with mass', g[:-1], g[1:])
    env.le('retained mass at most one', oc / (oc + ob) + g + fs, env.np.ones(3))
    env.equal('half the budget at the pivot mass', s.fg_fit(env.np.array([mb, mb]), mb, fs), 0.5 * (fb - fs) * env.np.ones(2))
    # the same law for the AGN-temperature version
    z = env.real('zz', 0.0, 3.0, special=[0.0])
    th = c.cosmo['log10T_AGN'] - 7.8
    mz = 10.0 ** (13.87 + 1.81 * th + z * (0.195 * th - 0.108))
    env.equal('AGN gas fraction', s.fg(c.w.m, z, fs), env.np.array([(fb - fs) * (m / mz) ** 2 / (1.0 + (m / mz) ** 2) for m in c.w.m]))
    gz = s.fg(c.w.m, z, fs)
    env.le('AGN gas fraction not negative', 0.0 * gz, gz)
    env.le('AGN gas fraction within budget', gz, (fb - fs) * env.np.ones(3))


def default_pivot(env):
    """Without further input the baryon pivot mass of the fit is 10^13.87 (log10 13.87), as in the AGN fit at T=10^7.8, z=0."""
    c = Case(env, hmcode='fit', nz=1, nk=1, nm=3)
    kw = dict(c.kw)
    kw.pop('mb')
    s = c.pk_mod.Spectra(**kw)
    env.equal('default pivot mass', s.mb, 10.0 ** 13.87)


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


add(large_scale)
add(large_scale, nz=1, nk=3, nm=4)
add(feedback)
add(feedback, nz=1, nk=3, nm=4)
add(fit)
add(fit, nb=1, nz=3, nk=1, nm=4)
add(budget)
add(default_pivot)
add(feedback, 'thorough', nz=3, nk=3, nm=5)
add(fit, 'thorough', nb=3, nz=3, nk=3, nm=5)
# many bins, redshifts, wavenumbers and masses, one at a time
for nz, nk, nm in ((10, 1, 2), (1, 12, 2), (1, 1, 16)):
    add(large_scale, nz=nz, nk=nk, nm=nm)
    add(feedback, nz=nz, nk=nk, nm=nm)
    add(fit, nb=1, nz=nz, nk=nk, nm=nm)
add(fit, nb=5, nz=1, nk=1, nm=2)
