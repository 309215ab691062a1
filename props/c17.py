"""C17: emulated non-linear halo bias."""
from symx.world import World
from .common import Case, replace_everywhere, ENV_ASSUMPTIONS

ASSUMPTIONS = ['Dark Emulator is a stand-in: halo-halo and linear spectra, sigma8 and Omega_m are arbitrary functions of cosmology, masses (symmetric in a pair), wavenumber and redshift',
               'scipy RegularGridInterpolator(nearest) picks the nearest node of each axis; interp1d(quadratic) on constant nodes is the linear map scipy itself computes'] + ENV_ASSUMPTIONS[2:]
BOUNDS = 'requested masses <=3 (arbitrary reals), wavenumbers <=3, redshifts <=2; emulated masses <=3 and wavenumbers 9 in the formula; every cosmological parameter arbitrary around and beyond the emulator box'
OUTSIDE = ('the emulator itself; peak finding on more than 6 wavenumbers; more than two cosmological parameters outside the box at once (quick: one)')
BOX = [('omega_b h^2', 0.0211375, 0.0233625), ('omega_c h^2', 0.10782, 0.13178), ('Omega_DE', 0.54752, 0.82128), ('ln 1e10 A_s', 2.4752, 3.7128), ('n_s', 0.916275, 1.012725), ('w', -1.2, -0.8)]


class Emu:
    """Arbitrary emulator."""

    def __init__(self, env, omega=None):
        self.env, self.calls = env, []
        om = env.real('Omega0', 0.2, 0.4) if omega is None else omega
        self.cosmo = type('C', (), {'get_Omega0': lambda s: om})()

    def set_cosmology(self, p):
        import numpy
        self.env.same('cosmology passed as one row of six', numpy.shape(p), (1, 6))
        self.calls.append(list(p[0]))

    def get_sigma8(self):
        return self.env.opaque('emu_s8', self.calls[-1], pos=True, lo=0.6, hi=1.0)

    def get_pklin_from_z(self, k, z):
        return self.env.np.array([self.env.opaque('emu_pklin', [x, z], pos=True, lo=1.0, hi=50.0) for x in list(k)])

    def get_phh_mass(self, k, m1, m2, z):
        m1, m2 = min(m1, m2), max(m1, m2)
        return self.env.np.array([self.env.opaque('emu_phh', [x, m1, m2, z], pos=True, lo=1.0, hi=500.0) for x in list(k)])


def module(env, omega=None):
    made = []

    def base_class(*a, **k):
        made.append(Emu(env, omega))
        return made[-1]
    env.env_modules['dark_emulator'] = {'darkemu': type('D', (), {'base_class': staticmethod(base_class)})}
    return env.load('onepower.bnl'), made


def slots(env, z_dep, masses='any', nz=2, omega=0.3, ks=(0.0005, 0.37, 350.0)):
    """Every requested slot holds the emulated value of the nearest emulated masses and wavenumber, at that redshift."""
    b, made = module(env, omega)
    grids = []

    env.replacing(b.NonLinearBias, 'compute_bnl_darkquest')

    class N(b.NonLinearBias):
        def compute_bnl_darkquest(self, z, m1, m2, k, kmax):
            env.hit('compute_bnl_darkquest')
            t = [env.opaque('B', [z, min(i, j), max(i, j)], lo=-0.9, hi=3.0) for i in range(len(m1)) for j in range(len(m2))]
            grids.append((z, m1, m2, k, kmax))
            import numpy
            amp = env.np.array(t).reshape((len(m1), len(m2), 1))
            return amp * (1.0 + numpy.arange(float(len(k))))
    nm = 2
    m = env.grid('m', nm, 1e11, 1e16) if masses == 'any' else env.np.array(masses)
    nm = len(m)
    k = env.np.array(list(ks))
    z = env.grid('z', nz, 0.0, 2.0)
    s = N(mass=m, z_vec=z, k_vec=k, z_dep=z_dep, A_s=2.1e-9)
    got = s.bnl
    env.same('shape', got.shape, (nz if z_dep else 1, len(k), nm, nm))
    if z_dep:
        env.same('one emulation per redshift', len(grids), nz)
        env.equal('emulated redshifts', env.np.array([g[0] for g in grids]), z)
    else:
        env.same('one emulation', len(grids), 1)
    np = env.np
    zz = [g[0] for g in grids]
    _, M1, M2, K, kmax = grids[0]
    env.equal('both mass axes alike', M1, M2)
    env.equal('heaviest emulated halo', M1[len(M1) - 1], 14.0)
    mmin = 2.77536627e11 * made[-1].cosmo.get_Omega0() * 1e9 * 200.0 / 2048.0 ** 3
    env.equal('lightest emulated halo', M1[0], np.log10(mmin))
    env.equal('lowest wavenumber', K[0], 1e-3)
    env.equal('highest wavenumber', K[len(K) - 1], 200.0)
    n = len(M1)

    def pick(v, nodes):
        """Indicator of each node being the nearest to v."""
        up = [np.where(2.0 * v > nodes[i] + nodes[i + 1], 1.0, 0.0) for i in range(len(nodes) - 1)]
        return [(1.0 if i == 0 else up[i - 1]) * (1.0 if i == len(nodes) - 1 else 1.0 - up[i]) for i in range(len(nodes))]
    import numpy
    lk = numpy.log10(numpy.asarray(K, float))
    jk = [int(numpy.argmin(abs(lk - numpy.log10(float(x))))) for x in list(k)]
    w = [pick(np.log10(m[i]), list(M1)) for i in range(nm)]
    want = []
    for iz in range(len(zz)):
        want.append([[[(1.0 + q) * sum(w[a][i] * w[c][j] * env.opaque('B', [zz[iz], min(i, j), max(i, j)], lo=-0.9, hi=3.0) for i in range(n) for j in range(n)) for c in range(nm)] for a in range(nm)] for q in jk])
    env.equal('bias of the nearest emulated masses and wavenumber', got, np.array(want))


def clip(env, v, lo, hi):
    return env.np.where(v < lo, lo, env.np.where(v > hi, hi, v))


def box(env, out):
    """Parameters outside the emulator's box are moved to its edge, the others are passed on."""
    b, made = module(env, 0.3)
    v = []
    for i, (n, lo, hi) in enumerate(BOX):
        w = hi - lo
        v.append(env.real(f'p{i}', lo - 2.0 * w, hi + 2.0 * w, special=[lo, hi]) if i in out else env.real(f'p{i}', lo, hi))
    s = b.NonLinearBias(mass=None)
    p = env.np.array(v)
    got = s.test_cosmo(p)
    for i, (n, lo, hi) in enumerate(BOX):
        env.equal(f'{n}', got[0, i], clip(env, v[i], lo, hi))
        env.le(f'{n} above the lower edge', lo, got[0, i])
        env.le(f'{n} below the upper edge', got[0, i], hi)
        env.equal(f'{n} as given', p[i], v[i])


def cosmology(env, amplitude, wide=None):
    """The emulator is set to the given cosmology, with the given amplitude or the one that reproduces sigma8."""
    b, made = module(env, 0.3)
    h = env.real('h0', 0.66, 0.7)
    # inside the box unless widened
    P = dict(h0=h, omega_b=env.real('wb', 0.02, 0.0245) / h ** 2 if wide == 'omega_b' else env.real('wb', 0.0212, 0.0233) / h ** 2,
             omega_c=env.real('wc', 0.09, 0.15) / h ** 2 if wide == 'omega_c' else env.real('wc', 0.108, 0.131) / h ** 2,
             omega_lambda=env.real('ol', 0.4, 0.95) if wide == 'omega_lambda' else env.real('ol', 0.55, 0.82), n_s=env.real('ns', 0.8, 1.1) if wide == 'n_s' else env.real('ns', 0.92, 1.01),
             w0=env.real('w0', -1.6, -0.5) if wide == 'w0' else env.real('w0', -1.19, -0.81))
    if amplitude in ('As', 'both'):
        P['A_s'] = env.real('A_s', 0.5e-9, 6e-9) if wide == 'A' else env.real('A_s', 1.2e-9, 4e-9)
    if amplitude in ('sigma8', 'both'):
        P['sigma_8'] = env.real('sigma_8', 0.3, 1.6) if wide == 'A' else env.real('sigma_8', 0.7, 0.9)
    if amplitude == 'none':
        P.update(A_s=None, sigma_8=None)
    s = b.NonLinearBias(mass=env.np.array([1e12]), z_vec=env.np.array([0.1]), k_vec=env.np.array([1.0]), **P)
    if amplitude == 'none':
        env.raises('no amplitude', lambda: s.emulator, ValueError)
        return
    e = s.emulator
    np = env.np
    base = [P['omega_b'] * h ** 2, P['omega_c'] * h ** 2, P['omega_lambda'] - 0.00064, None, P['n_s'], P['w0']]
    base = [None if x is None else clip(env, x, BOX[i][1], BOX[i][2]) for i, x in enumerate(base)]
    if amplitude in ('As', 'both'):
        lnA = np.log(P['A_s'] * 1e10)
    else:
        first = list(base)
        first[3] = np.log(np.array([21.0]))[0]
        s8 = env.opaque('emu_s8', e.calls[0], pos=True, lo=0.6, hi=1.0)
        for i in range(6):
            env.equal(f'reference cosmology: {BOX[i][0]}', e.calls[0][i], first[i])
        lnA = np.log(21.0 * P['sigma_8'] ** 2 / s8 ** 2)
    base[3] = clip(env, lnA, BOX[3][1], BOX[3][2])
    for i in range(6):
        env.equal(f'emulated cosmology: {BOX[i][0]}', e.calls[-1][i], base[i])


K = [0.002, 0.01, 0.05, 0.3, 1.0, 5.0, 30.0, 120.0, 150.0]


def formula(env, peaks=(1, 3, 5), nm=2):
    """The bias of a mass pair from the emulated spectra of that pair: symmetric, zero at the linear scale up to the truncations."""
    b, made = module(env, 0.3)
    seen = []

    env.replacing(b.NonLinearBias, 'emulator', 'hl_envelopes_idx')

    class N(b.NonLinearBias):
        emulator = property(lambda s: env.hit('emulator', E))

        def hl_envelopes_idx(self, data, dmin=1, dmax=1):
            import numpy
            env.hit('hl_envelopes_idx')
            seen.append(data)
            return numpy.array([0]), numpy.array(list(peaks))
    E = Emu(env, 0.3)
    s = N(mass=None)
    np = env.np
    import numpy
    z, kmax = env.real('z', 0.0, 2.0), env.real('kmax', 1.0, 10.0)
    lm = [12.2, 13.0, 13.9][:nm]
    got = s.compute_bnl_darkquest(z, np.array(lm), np.array(lm), np.array(K), kmax)
    env.same('shape', got.shape, (nm, nm, len(K)))
    M = [float(x) for x in 10.0 ** numpy.array(lm)]
    lin = lambda q: env.opaque('emu_pklin', [q, z], pos=True, lo=1.0, hi=50.0)  # noqa: E731
    hh = lambda q, a, c: env.opaque('emu_phh', [q, min(M[a], M[c]), max(M[a], M[c]), z], pos=True, lo=1.0, hi=500.0)  # noqa: E731
    b0 = [(hh(0.05, a, a) / lin(0.05)) ** 0.5 for a in range(nm)]
    ip = env.loader().library('scipy.interpolate').interp1d
    for a in range(nm):
        for c in range(a, nm):
            shot = (hh(120.0, a, c) + hh(150.0, a, c)) / 2.0
            ratio = [(hh(x, a, c) - shot) / (b0[a] * b0[c] * lin(x)) for x in K]
            f = ip(np.array([K[i] for i in peaks]), np.array([abs(ratio[i]) for i in peaks]), kind='quadratic', bounds_error=False, fill_value='extrapolate')
            smooth, ref = f(np.array(K)), f(np.array([0.05]))[0]
            want = []
            for i, x in enumerate(K):
                lo = 1.0 / (1.0 + np.exp(-(10.0 * (np.log10(x) - np.log10(0.05)))))
                hi = 1.0 / (1.0 + np.exp(10.0 * (np.log10(x) - np.log10(3.0 * kmax))))
                want.append((smooth[i] - ref) * lo * hi)
            env.equal(f'bias of masses {a},{c}', got[a, c], np.array(want))
            env.equal(f'bias of masses {c},{a}', got[c, a], np.array(want))


def envelope(env, n):
    """Interior points above (below) both neighbours are the maxima (minima)."""
    b, made = module(env, 0.3)
    d = env.arr('d', (n,), 0.0, 3.0)
    s = b.NonLinearBias(mass=None)
    step = [bool(d[i + 1] > d[i]) - bool(d[i + 1] < d[i]) for i in range(n - 1)]
    lmin, lmax = s.hl_envelopes_idx(d)
    env.same('minima', [int(x) for x in lmin], [i + 1 for i in range(n - 2) if step[i + 1] > step[i]])
    env.same('maxima', [int(x) for x in lmax], [i + 1 for i in range(n - 2) if step[i + 1] < step[i]])


def edges(env):
    """Radius of a halo 200 times denser than the mean, the lightest resolved halo, and the two truncations."""
    b, made = module(env)
    s = b.NonLinearBias(mass=None, A_s=2.1e-9)
    np = env.np
    m = env.arr('m', (3,), 1e10, 1e16)
    om = env.real('Omega0', 0.2, 0.4)
    rho = 2.77536627e11 * om
    env.equal('virial radius', s.rvir(m), (3.0 * m / (4.0 * np.pi * 200.0 * rho)) ** (1.0 / 3.0))
    mmin, kmax = s.minimum_halo_mass
    env.equal('lightest halo', mmin, rho * 1e9 * 200.0 / 2048.0 ** 3)
    env.equal('largest wavenumber', kmax, 2.0 * np.pi / (3.0 * 1e9 * 200.0 / 2048.0 ** 3 / (4.0 * np.pi)) ** (1.0 / 3.0))
    k, t = env.arr('k', (2,), 1e-4, 1e3), env.real('trunc', 1e-3, 1e2)
    x = 10.0 * (np.log10(k) - np.log10(t))
    env.equal('large scales cut', s.low_k_truncation(k, t), 1.0 / (1.0 + np.exp(-x)))
    env.equal('small scales cut', s.high_k_truncation(k, t), 1.0 / (1.0 + np.exp(x)))


def handover(env, nz=1):
    """The halo model hands its own cosmology and grids to the bias, and uses the result as it is."""
    nk, nm = 2, 2
    env.env_modules['dark_emulator'] = {'darkemu': type('D', (), {'base_class': staticmethod(lambda: Emu(env, 0.3))})}
    c = Case(env, mode='bnl', nz=nz, nk=nk, nm=nm)
    bnl = env.load('onepower.bnl')
    B = env.arr('B', (1, nk, nm, nm), -0.9, 2.0)
    seen = []

    class Bias(bnl.NonLinearBias):
        def __init__(self, **kw):
            seen.append(kw)
        bnl = property(lambda s: B * 1.0)
    replace_everywhere(env, bnl.NonLinearBias, Bias)
    got = c.s.calc_bnl
    env.equal('bias', got, B)
    kw = seen[-1]
    for n in ('h0', 'sigma_8', 'omega_b', 'omega_c', 'n_s', 'w0'):
        env.equal(n, kw[n], c.cosmo[n])
    env.equal('omega_lambda', kw['omega_lambda'], 1.0 - c.s.omega_m)
    env.equal('masses', kw['mass'], c.w.m)
    env.equal('redshifts', kw['z_vec'], c.w.z)
    env.equal('wavenumbers', kw['k_vec'], c.w.k)
    env.same('no primordial amplitude', kw.get('A_s'), None)


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier, maxpaths=800))


for zd in (False, True):
    add(slots, z_dep=zd)
    add(slots, z_dep=zd, masses=(3e11, 4e12, 2e13), ks=(0.0123, 199.0))
    add(slots, 'thorough', z_dep=zd, nz=3, masses=(1e12, 1e13, 5e13, 1e14), ks=(0.001, 0.02, 0.5, 3.0, 200.0))
add(slots, z_dep=False, omega=None, ks=(0.37,))
add(slots, 'thorough', z_dep=True, omega=None, ks=(0.37, 2.0))
for i in range(6):
    add(box, out=(i,))
    for j in range(i):
        add(box, 'thorough', out=(j, i))
for a in ('As', 'sigma8', 'both', 'none'):
    add(cosmology, amplitude=a)
for wd in ('omega_b', 'omega_c', 'omega_lambda', 'n_s', 'w0', 'A'):
    add(cosmology, amplitude='As', wide=wd)
    add(cosmology, amplitude='sigma8', wide=wd)
add(formula)
add(formula, peaks=(0, 2, 4, 6), nm=3)
for n in (4, 5):
    add(envelope, n=n)
add(envelope, 'thorough', n=6)
add(edges)
add(handover)
