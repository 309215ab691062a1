"""C12: HMCode growth, threshold, overdensity, concentration normalisation."""
from symx.world import World, Cosmo, Quantity
from .common import ENV_ASSUMPTIONS
from .c11 import REAL

ASSUMPTIONS = ['the initial-value solver, adaptive quadrature and cubic interpolation are functions of exactly the equation, initial values, integrand and limits they are given',
               'Om(z), Onu(z) and Onu0 of the cosmology are unknown functions of its parameters; the w0-wa dark-energy functions are the standard closed forms'] + ENV_ASSUMPTIONS[2:]
BOUNDS = 'redshifts nz<=8; all cosmological parameters arbitrary reals in the stated ranges'
OUTSIDE = 'numerical accuracy of the ODE solution and quadrature (N02)'
NAMES = ('h0', 'omega_c', 'omega_b', 'n_s', 'sigma_8', 'w0', 'wa', 'tcmb', 'Neff', 'm_nu', 'log10T_AGN')


def build(env, nz, hmcode='mead2020', cls='HaloModelIngredients'):
    w = World(env, nz=nz, nk=2, nm=2, rich=True)
    v = {n: env.real(n, *REAL[n]) for n in NAMES}
    mod = env.load('onepower.hmi')
    h = mod.HaloModelIngredients(z_vec=w.z, k_vec=w.k, hmcode_ingredients=hmcode, **v) if cls == 'HaloModelIngredients' else mod.CosmologyBase(z_vec=w.z, **v)
    c = Cosmo(env, dict(H0=v['h0'] * 100.0, Ob0=v['omega_b'], Om0=v['omega_c'] + v['omega_b'], Neff=v['Neff'], m_nu=Quantity([0.0, 0.0, v['m_nu']], 'eV'), Tcmb0=v['tcmb'],
                        w0=v['w0'], wa=v['wa']))
    return w, h, c, v


def growth_function(env, c):
    """Growth equation of the matter/dark-energy background with HMCode's initial conditions."""
    np = env.np
    integ, inter = env.loader().library('scipy.integrate'), env.loader().library('scipy.interpolate')
    Om = c.Om0 + c.Onu0
    Ode = 1.0 - Om

    def X(a):
        return c.de_density_scale(1.0 / a - 1.0)

    def H2(a):
        return Om / a ** 3 + Ode * X(a)

    def rhs(a, y):
        AH = -0.5 * (Om / a ** 3 + (1.0 + 3.0 * c.w(1.0 / a - 1.0)) * Ode * X(a))
        return y[1], -(2.0 + AH / H2(a)) * y[1] / a + 1.5 * (Om / a ** 3 / H2(a)) * y[0] / a ** 2
    ai = 1e-4
    p = 1.0 - 0.6 * (1.0 - Om / ai ** 3 / H2(ai))
    a = np.linspace(ai, 1.0, 129)
    g = integ.solve_ivp(rhs, (ai, 1.0), (ai ** p, p * ai ** (p - 1.0)), t_eval=a).y[0]
    return inter.interp1d(a, g, kind='cubic', assume_sorted=True), integ


def growth(env, nz=2, cls='CosmologyBase'):
    w, h, c, v = build(env, nz, cls=cls)
    g, integ = growth_function(env, c)
    a = [1.0 / (1.0 + z) for z in w.z]
    env.equal('growth', h.get_mead_growth, g(env.np.array(a)))
    env.equal('accumulated growth', h.get_mead_accumulated_growth, env.np.array([integ.quad(lambda x: g(x) / x, 1e-4, ai)[0] + g(1e-4) for ai in a]))


def fits(env, what, nz=2, cls='CosmologyBase'):
    w, h, c, v = build(env, nz, cls=cls)
    np = env.np
    g, G = h.get_mead_growth, h.get_mead_accumulated_growth
    f = lambda p, x, y: p[0] + p[1] * (1.0 - x) + p[2] * (1.0 - x) ** 2 + p[3] * (1.0 - y)  # noqa: E731
    fn = c.Onu0 / (c.Om0 + c.Onu0)
    Omz, Onz = c.Om(w.z), c.Onu(w.z)
    T = dict(dc=((-0.0069, -0.0208, 0.0312, 0.0021), (0.0001, -0.0647, -0.0417, 0.0646), 1, 0), Dv=((-0.79, -10.17, 2.51, 6.51), (-1.89, 0.38, 18.8, -15.87), 1, 2))[what]
    out = []
    for i in range(nz):
        a = 1.0 / (1.0 + w.z[i])
        L = np.log10(Omz[i] + Onz[i])
        x, y = g[i] / a, G[i] / a
        val = 1.0 + f(T[0], x, y) * L ** T[2] + f(T[1], x, y) * L ** T[3]
        out.append(val * (0.15 * (12.0 * 3.141592653589793) ** (2.0 / 3.0) * (1.0 - 0.041 * fn) if what == 'dc' else 18.0 * 3.141592653589793 ** 2 * (1.0 + 0.763 * fn)))
    env.equal(f'{what}_Mead', h.dc_Mead if what == 'dc' else h.Dv_Mead, np.array(out))


def norm(env, hmcode, nz=2):
    w, h, c, v = build(env, nz, hmcode)
    th = v['log10T_AGN'] - 7.8
    want = {'mead2020': lambda z: 5.196, 'mead2020_feedback': lambda z: 5.196 / 4.0 * (3.44 - 0.496 * th) * 10.0 ** (z * (-0.0671 - 0.0371 * th))}.get(hmcode, lambda z: 0.0)
    env.equal('concentration normalisation', h.K, env.np.array([want(z) for z in w.z]))


def cold(env, nk=2, neutrinos=True, tcmb=True):
    """Cold to total matter transfer function of Eisenstein & Hu (1999), eqs 5, 11-14."""
    w, h, c, v = build(env, 1)
    k, g, om, hh = env.arr('kt', (nk,), 1e-4, 10.0), env.real('g', 0.05, 1.0), env.real('ommh2', 0.05, 0.3), env.real('hh', 0.5, 0.9)
    f, N, T = env.real('f_nu', 1e-3, 0.1) if neutrinos else 0.0, env.real('N_nu', 1.0, 4.0), env.real('T', 2.5, 3.0) if tcmb else 2.7255
    got = h.Tk_cold_ratio(k, g, om, hh, f, N, **(dict(T_CMB=T) if tcmb else {}))
    if not neutrinos:
        env.equal('no neutrinos', got, 1.0)
        return
    th = T / 2.7
    p = (5.0 - (1.0 + 24.0 * (1.0 - f)) ** 0.5) / 4.0
    D = (1.0 + 2.5e4 * om / th ** 4) * g
    out = []
    for x in k:
        q = x * hh * th ** 2 / om
        y = 17.2 * f * (1.0 + 0.488 * f ** (-7.0 / 6.0)) * (N * q / f) ** 2
        r = (D / (1.0 + y)) ** 0.7
        out.append((1.0 + r) ** (p / 0.7) / ((1.0 - f) ** (0.7 / p) + r) ** (p / 0.7))
    env.equal('cold to matter transfer ratio', got, env.np.array(out))


def variance(env, nk=3, nr=1):
    """Variance of the field smoothed with a top hat: integral of k^3 P W^2 / (2 pi^2) over ln k."""
    w, h, c, v = build(env, 1)
    np = env.np
    k = np.array([0.01 * 2.0 ** i for i in range(nk)])
    P, R = env.arr('Pcc', (nk,), 0.5, 50.0), env.arr('R', (nr,), 0.5, 20.0)
    W = lambda x: 3.0 * (np.sin(x) - x * np.cos(x)) / x ** 3  # noqa: E731
    want = [env.simpson(np.array([P[j] * k[j] ** 3 * W(r * k[j]) ** 2 for j in range(nk)]), dx=np.log(k[1] / k[0])) / (2.0 * 3.141592653589793 ** 2) for r in R]
    env.equal('variance', h.sigmaR_cc(P, k, R if nr > 1 else R[0]) ** 2, np.array(want))


def collapse(env, nm=2):
    """Bullock et al. (2001): a hundredth of the halo mass collapses when the growth equals g(a) delta_c / sigma."""
    w = World(env, nz=1, nk=2, nm=2, rich=True)
    if env.sym:
        # root of a function that is linear here
        root = lambda f: -f(0.0) / (f(1.0) - f(0.0))  # noqa: E731
        bracketed = {n: lambda f, a, b, *r, **k: root(f) for n in ('brentq', 'brenth', 'bisect', 'ridder', 'toms748')}
        env.env_modules['scipy.optimize'] = dict(root_scalar=lambda f, *r, **k: type('R', (), dict(root=root(f), converged=True))(), **bracketed)
    v = {n: env.real(n, *REAL[n]) for n in NAMES}
    h = env.load('onepower.hmi').HaloModelIngredients(z_vec=w.z, k_vec=w.k, hmcode_ingredients=None, **v)
    M, z, dc, rho = env.arr('M', (nm,), 1e10, 1e15), env.real('zz', 0.0, 3.0), env.real('dc', 1.5, 1.8), env.real('rho', 1e10, 1e12)
    slope = env.real('slope', 0.5, 1.5)
    g = lambda a: slope * a  # noqa: E731
    rad = lambda m, r: env.opaque('radius', [m, r], (), pos=True, lo=0.1, hi=10.0)  # noqa: E731
    sig = lambda r: env.opaque('sigma', [r], (), pos=True, lo=0.5, hi=4.0)  # noqa: E731
    each = lambda f: (lambda x, *r: env.np.array([f(y, *r) for y in x]) if getattr(x, 'ndim', 0) else f(x, *r))  # noqa: E731
    cosmo = type('C', (), dict(scale_factor=lambda s, x: 1.0 / (1.0 + x)))()
    mf = type('M', (), dict(mean_density0=rho, filter=type('F', (), dict(mass_to_radius=lambda s, m, r: each(rad)(m, r)))(), normalised_filter=type('N', (), dict(sigma=lambda s, r: each(sig)(r)))()))()
    got = h.get_halo_collapse_redshifts(M, z, dc, g, cosmo, mf)
    a = 1.0 / (1.0 + z)
    for i in range(nm):
        fac = g(a) * dc / sig(rad(0.01 * M[i], rho))
        want = env.np.where(fac >= g(a), a, fac / slope)
        env.equal('collapse redshift', got[i], 1.0 / want - 1.0)


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


for cl in ('CosmologyBase', 'HaloModelIngredients'):
    add(growth, cls=cl)
    for q in ('dc', 'Dv'):
        add(fits, what=q, cls=cl)
        add(fits, 'thorough', what=q, cls=cl, nz=3)
add(growth, 'thorough', nz=3)
for hm in ('mead2020', 'mead2020_feedback', 'fit', None):
    add(norm, hmcode=hm)
    add(norm, 'thorough', hmcode=hm, nz=3)
add(growth, nz=6)
for q in ('dc', 'Dv'):
    add(fits, what=q, nz=6)
add(norm, hmcode='mead2020_feedback', nz=8)
for kw in (dict(), dict(tcmb=False), dict(neutrinos=False), dict(nk=6)):
    add(cold, **kw)
add(variance)
add(variance, nk=7, nr=2)
add(collapse)
