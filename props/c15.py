"""C15: alignment amplitudes and their galaxy dependence."""
from symx.engine import WIDE
from .common import ENV_ASSUMPTIONS

WIDE.update(z0=(0.0, 5.0), a2h=(-50.0, 50.0), a1h=(-1.0, 1.0), beta_cen=(-5.0, 5.0), beta_sat=(-5.0, 5.0), beta_two=(-5.0, 5.0), mpc=(8.0, 17.0), mps=(8.0, 17.0), lpc=(6.0, 13.0), lps=(6.0, 13.0), slope=(-3.0, 1.0))
ASSUMPTIONS = ['the luminosity catalogue is a FITS table with columns z and loglum holding arbitrary galaxies',
               'numpy.histogram is the equal-width histogram of its arguments; scipy Simpson weights on the equal-width bins are scipy\'s own'] + ENV_ASSUMPTIONS[2:]
BOUNDS = 'redshifts nz<=6 (evenly spaced), up to 3 galaxies per redshift bin plus galaxies outside every bin, 4 luminosity histogram bins; all values arbitrary reals in the stated ranges'
OUTSIDE = 'redshift bins containing no galaxies, unevenly spaced redshift grids, the production number of luminosity bins (10000)'
NL = 4


class Fits:
    """astropy.io.fits over in-memory tables."""

    def __init__(self, files):
        self.files, self.opened = files, []
        self.inside, self.outside = False, False

    def open(self, name, *a, **k):
        self.opened.append(name)
        self.outside |= not self.inside
        return Hdus(self.files[name])

    def getdata(self, name, ext=1, *a, **k):
        self.opened.append(name)
        self.outside |= not self.inside
        return self.files[name]


class Hdus(list):
    def __init__(self, table):
        h = type('HDU', (), {'data': table, 'columns': None})()
        super().__init__([type('HDU', (), {'data': None})(), h])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Table(dict):
    def field(self, n):
        return self[n]


def ia_class(env, files):
    fits = Fits(files)
    env.env_modules['astropy.io'] = {'fits': fits}
    env.env_modules['astropy.io.fits'] = {'open': fits.open, 'getdata': fits.getdata}
    ia = env.load('onepower.ia')
    env.unhit = Unless(fits)
    # the method that is told the number of luminosity bins
    C = ia.AlignmentAmplitudes
    for name, f in list(vars(C).items()):
        code = getattr(f, '__code__', None)
        names = code.co_varnames[1:code.co_argcount] if code else ()
        at = next((i for i, n in enumerate(names) if 'bins' in n), None)
        if at is not None:
            return type('Small', (C,), {name: few_bins(f, names[at], at, fits)})
    return C


def few_bins(f, arg, at, fits):
    def call(self, *a, **k):
        a = list(a)
        if len(a) > at:
            a[at] = NL
        else:
            k[arg] = NL
        fits.inside = True
        try:
            return f(self, *a, **k)
        finally:
            fits.inside = False
    return call


class Unless(dict):
    """The number of luminosity bins is only known for catalogues read by the method that takes it."""
    def __init__(self, fits):
        super().__init__({'number of luminosity bins': 'AlignmentAmplitudes'})
        self.fits = fits

    def __bool__(self):
        return self.fits.outside


def catalogue(env, tag, zs, dz, ng):
    """Galaxies inside each redshift's bin, interleaved, plus some in no bin."""
    cat, own = [], [[] for _ in zs]
    lums = [env.grid(f'{tag}_loglum{i}', ng, 8.5, 11.5) for i in range(len(zs))]
    for g in range(ng):
        for i, z in enumerate(zs):
            zg = z + dz * env.real(f'{tag}_off{i}_{g}', -0.49, 0.49)
            cat.append((zg, lums[i][g]))
            own[i].append(lums[i][g])
    cat.insert(1, (zs[0] - dz * env.real(f'{tag}_below', 0.51, 0.9), env.real(f'{tag}_out0', 8.5, 11.5)))
    cat.insert(3, (zs[-1] + dz * env.real(f'{tag}_above', 0.51, 2.0), env.real(f'{tag}_out1', 8.5, 11.5)))
    np = env.np
    return Table(z=np.array([c[0] for c in cat]), loglum=np.array([c[1] for c in cat])), own


def moment(env, own, weight):
    """Luminosity-distribution average of weight(L), over the equal-width histogram of one bin's galaxies."""
    np = env.np
    lum = np.array([10.0 ** v for v in own])
    pdf, edges = np.histogram(lum, bins=NL, density=True)
    cen = [0.5 * (edges[q] + edges[q + 1]) for q in range(NL)]
    return env.simpson(np.array([pdf[q] * weight(cen[q]) for q in range(NL)]), x=np.array(cen))


def setup(env, nz, ng):
    z0, dz = env.real('z0', 0.05, 0.5), env.real('dz', 0.05, 0.5)
    zs = [z0 + dz * i for i in range(nz)]
    tc, oc = catalogue(env, 'cen', zs, dz, ng)
    ts, os_ = catalogue(env, 'sat', zs, dz, ng)
    A = ia_class(env, {'cen.fits': tc, 'sat.fits': ts})
    v = dict(gamma_2h_amplitude=env.real('a2h', -8.0, 8.0), gamma_1h_amplitude=env.real('a1h', -0.01, 0.01), beta_cen=env.real('beta_cen', -1.5, 1.5), beta_sat=env.real('beta_sat', -1.5, 1.5),
             mpivot_cen=env.real('mpc', 12.0, 14.0), mpivot_sat=env.real('mps', 12.0, 14.0), lpivot_cen=env.real('lpc', 9.0, 11.0), lpivot_sat=env.real('lps', 9.0, 11.0),
             z_loglum_file_centrals='cen.fits', z_loglum_file_satellites='sat.fits', gamma_1h_slope=env.real('slope', -2.0, 0.0))
    return A, v, env.np.array(zs), oc, os_


def power(env, x, piv, beta):
    return env.np.exp(beta * (env.np.log(x) - piv * 2.302585092994046))


def amplitude(env, cen, sat, two=False, nz=2, ng=2, order=0):
    A, v, z, oc, os_ = setup(env, nz, ng)
    b2 = env.real('beta_two', -1.5, 1.5) if two else None
    a = A(z_vec=z, central_ia_depends_on=cen, satellite_ia_depends_on=sat, beta_two=b2, **v)
    got = {}
    for n in (('alignment_gi', 'gamma_1h_amp') if order == 0 else ('gamma_1h_amp', 'alignment_gi')):
        got[n] = getattr(a, n)
    np = env.np
    if cen == 'luminosity':
        def w(L):
            lo = power(env, L, v['lpivot_cen'], b2) if two else None
            hi = power(env, L, v['lpivot_cen'], v['beta_cen'])
            return np.where(L > 10.0 ** v['lpivot_cen'], hi, lo).item() if two else hi
        want = [v['gamma_2h_amplitude'] * moment(env, oc[i], w) for i in range(nz)]
    else:
        want = [v['gamma_2h_amplitude'] for i in range(nz)]
    env.equal('central amplitude', got['alignment_gi'], np.array(want))
    if sat == 'luminosity':
        want = [v['gamma_1h_amplitude'] * moment(env, os_[i], lambda L: power(env, L, v['lpivot_sat'], v['beta_sat'])) for i in range(nz)]
    else:
        want = [v['gamma_1h_amplitude'] for i in range(nz)]
    env.equal('satellite amplitude', got['gamma_1h_amp'], np.array(want))


def single(env, which):
    """One galaxy per bin: numpy widens the histogram by one half; and files of one type do not serve the other."""
    A, v, z, oc, os_ = setup(env, 2, 1)
    a = A(z_vec=z, central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity', **v)
    if which == 'cen':
        env.equal('central amplitude', a.alignment_gi, env.np.array([v['gamma_2h_amplitude'] * moment(env, oc[i], lambda L: power(env, L, v['lpivot_cen'], v['beta_cen'])) for i in range(2)]))
    else:
        env.equal('satellite amplitude', a.gamma_1h_amp, env.np.array([v['gamma_1h_amplitude'] * moment(env, os_[i], lambda L: power(env, L, v['lpivot_sat'], v['beta_sat'])) for i in range(2)]))


def distribution(env, nz=2, ng=3, types=('centrals', 'satellites')):
    """The luminosity distribution integrates to one over its bins and is zero for no other redshift's galaxies."""
    A, v, z, oc, os_ = setup(env, nz, ng)
    a = A(z_vec=z, **v)
    for typ, own in (('centrals', oc), ('satellites', os_)):
        if typ not in types:
            continue
        lum, pdf = getattr(a, f'lum_{typ}'), getattr(a, f'lum_pdf_z_{typ}')
        for i in range(nz):
            L = env.np.array([10.0 ** x for x in own[i]])
            p, e = env.np.histogram(L, bins=NL, density=True)
            env.equal(f'{typ} distribution at redshift {i}', pdf[i], p)
            env.equal(f'{typ} luminosities at redshift {i}', lum[i], env.np.array([0.5 * (e[q] + e[q + 1]) for q in range(NL)]))


def edge(env):
    """A galaxy on the edge between two redshift bins belongs to one of them."""
    np = env.np
    l = [env.real(f'loglum{i}', 8.5 + i, 9.0 + i) for i in range(3)]
    tab = Table(z=np.array([0.25, 0.375, 0.5]), loglum=np.array(l))
    A = ia_class(env, {'cen.fits': tab})
    a = A(z_vec=np.array([0.25, 0.5]), gamma_2h_amplitude=1.0, gamma_1h_amplitude=0.001, z_loglum_file_centrals='cen.fits')
    lum, n = a.lum_centrals, 0
    for i, own in ((0, 0), (1, 2)):
        # alone in its bin, its histogram is centred on it
        mid = 0.5 * (lum[i][0] + lum[i][NL - 1])
        n = n + (mid - 10.0 ** l[own]) / (0.5 * (10.0 ** l[1] - 10.0 ** l[own]))
    env.equal('the galaxy on the edge is counted once', n, 1.0)


REJECT = {
    'cen-lpivot': (dict(central_ia_depends_on='luminosity', lpivot_cen=None), 'alignment_gi'),
    'cen-file': (dict(central_ia_depends_on='luminosity', z_loglum_file_centrals=None), 'alignment_gi'),
    'cen-file-two': (dict(central_ia_depends_on='luminosity', z_loglum_file_centrals=None, beta_two=0.4), 'alignment_gi'),
    'cen-lpivot-two': (dict(central_ia_depends_on='luminosity', lpivot_cen=None, beta_two=0.4), 'alignment_gi'),
    'cen-mpivot': (dict(central_ia_depends_on='halo_mass', mpivot_cen=None), 'alignment_gi'),
    'cen-mass-two': (dict(central_ia_depends_on='halo_mass', beta_two=0.4), 'alignment_gi'),
    'sat-lpivot': (dict(satellite_ia_depends_on='luminosity', lpivot_sat=None), 'gamma_1h_amp'),
    'sat-file': (dict(satellite_ia_depends_on='luminosity', z_loglum_file_satellites=None), 'gamma_1h_amp'),
    'sat-mpivot': (dict(satellite_ia_depends_on='halo_mass', mpivot_sat=None), 'gamma_1h_amp'),
}


def reject(env, case, cls='small'):
    A, v, z, oc, os_ = setup(env, 2, 2)
    kw, q = REJECT[case]
    if 'two' in case:
        kw = dict(kw, beta_two=env.real('beta_two', -1.5, 1.5))
    args = dict(dict(v, z_vec=z), **kw)
    env.raises(f'{case} is rejected', lambda: getattr(A(**args), q), ValueError)
    # the other type's amplitude is unaffected
    other = 'gamma_1h_amp' if q == 'alignment_gi' else 'alignment_gi'
    a = A(**args)
    env.equal(f'{other} still available', getattr(a, other), env.np.array([v['gamma_1h_amplitude' if other == 'gamma_1h_amp' else 'gamma_2h_amplitude']] * 2))


def unused(env, dep):
    """Pivots and files are only needed by the dependence that uses them."""
    A, v, z, oc, os_ = setup(env, 2, 2)
    drop = dict(constant=('mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat', 'z_loglum_file_centrals', 'z_loglum_file_satellites'),
                halo_mass=('lpivot_cen', 'lpivot_sat', 'z_loglum_file_centrals', 'z_loglum_file_satellites'), luminosity=('mpivot_cen', 'mpivot_sat'))[dep]
    full = A(z_vec=z, central_ia_depends_on=dep, satellite_ia_depends_on=dep, **v)
    part = A(z_vec=z, central_ia_depends_on=dep, satellite_ia_depends_on=dep, **dict(v, **{d: None for d in drop}))
    env.equal('central amplitude', part.alignment_gi, full.alignment_gi)
    env.equal('satellite amplitude', part.gamma_1h_amp, full.gamma_1h_amp)


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier, maxpaths=200))


OPT = ('constant', 'luminosity', 'halo_mass')
for c in OPT:
    for s in OPT:
        add(amplitude, 'quick' if c == s or 'luminosity' in (c, s) else 'thorough', cen=c, sat=s)
        add(amplitude, 'thorough', cen=c, sat=s, order=1, nz=3)
for s in OPT:
    add(amplitude, 'quick' if s == 'luminosity' else 'thorough', cen='luminosity', sat=s, two=True)
add(amplitude, 'quick', cen='constant', sat='constant', two=True)
add(amplitude, 'thorough', cen='luminosity', sat='constant', ng=3)
add(amplitude, 'thorough', cen='constant', sat='luminosity', ng=3)
add(amplitude, 'thorough', cen='luminosity', sat='luminosity', two=True, nz=3)
for t in ('cen', 'sat'):
    add(single, which=t)
add(distribution, ng=2)
add(edge)
for t in ('centrals', 'satellites'):
    add(distribution, 'thorough', ng=3, types=t)
for r in REJECT:
    add(reject, case=r)
for d in OPT:
    add(unused, dep=d)
add(amplitude, cen='luminosity', sat='luminosity', nz=5, ng=1)
add(distribution, ng=1, nz=6)
