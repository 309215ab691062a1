"""Shared scaffolding: a Spectra object over an arbitrary halo model, and an independent statement of the halo-model equations."""
from symx.engine import WIDE
from symx.world import World

ENV_ASSUMPTIONS = [
    'hmf/halomod DMHaloModel, astropy Flatw0waCDM and the EH transfer function are stand-ins returning arbitrary values per redshift '
    '(arbitrary mass function, bias, profiles, densities, sigma8, neff); hmf caching and pluggable frameworks are the real ones',
    'scipy.integrate.simpson on an arbitrary mass grid is the weighted sum with unknown grid-dependent weights (scipy Simpson is such a sum)',
    'real arithmetic stands for floating point (relative tolerance 1e-9 per term; replays use 1e-6)',
]
BOUNDS = 'halo masses nm<=4, redshifts nz<=3, wavenumbers nk<=3, tomographic bins nb<=2 together, and larger sizes one dimension at a time (masses to 24, redshifts to 12, wavenumbers to 16, bins to 5; see the harness names), all values arbitrary reals in the stated ranges'

WIDE.update({
    'h0': (0.3, 1.5), 'omega_c': (0.01, 0.7), 'omega_b': (1e-3, 0.15), 'n_s': (0.3, 2.0), 'sigma_8': (0.1, 3.0), 'w0': (-3.0, None), 'wa': (-3.0, None),
    'm_nu': (0.0, 1.0), 'log10T_AGN': (5.0, 10.0),
    'n_c': (1e-15, 1e3), 'n_s_': (1e-15, 1e3), 'f_c': (0.0, 1.0), 'f_s': (0.0, 1.0), 'N_c': (0.0, 10.0), 'N_s': (0.0, 1e4), 'fstar': (0.0, 1.0), 'fstar_mm': (0.0, 1.0),
    'mavg': (1e6, 1e18), 'align_gi': (-50.0, 50.0), 'wkm': (-10.0, 10.0),
    'one_halo_ktrunc': (1e-4, 1e3), 'two_halo_ktrunc': (1e-4, 1e3), 'one_halo_ktrunc_ia': (1e-4, 1e3), 'two_halo_ktrunc_ia': (1e-4, 1e3),
    'mb': (1e8, 1e18), 'plin': (1e-9, 1e7), 'pnl': (1e-9, 1e7), 'bnl': (-1.0, 50.0), 'beta_cen': (-5.0, 5.0), 'beta_sat': (-5.0, 5.0),
    'mpivot_cen': (8.0, 17.0), 'mpivot_sat': (8.0, 17.0), 'pois_A': (0.0, 10.0), 'pois_piv': (8.0, 17.0), 'pois_slope': (-5.0, 5.0),
})


def cosmology(env):
    return dict(h0=env.real('h0', 0.5, 0.9), omega_c=env.real('omega_c', 0.1, 0.5), omega_b=env.real('omega_b', 0.02, 0.08),
                n_s=env.real('n_s', 0.85, 1.1), sigma_8=env.real('sigma_8', 0.5, 1.1), w0=env.real('w0', -1.5, -0.5), wa=env.real('wa', -0.5, 0.5),
                m_nu=env.real('m_nu', 0.01, 0.3), log10T_AGN=env.real('log10T_AGN', 7.3, 8.3))


def make_hod(env, w, nb, cof=False):
    """A pluggable occupation model with arbitrary occupations, densities and fractions."""
    hod = env.load('onepower.hod')
    nz, nm = w.nz, w.nm
    V = dict(
        n_c=env.arr('n_c', (nb, nz), 0.2, 3.0), n_s=env.arr('n_s_', (nb, nz), 0.2, 3.0),
        f_c=env.arr('f_c', (nb, nz), 0.05, 1.0), f_s=env.arr('f_s', (nb, nz), 0.05, 1.0),
        N_c=env.arr('N_c', (nb, nz, nm), 0.1, 1.0), N_s=env.arr('N_s', (nb, nz, nm), 0.1, 5.0),
        fstar=env.arr('fstar', (nb, nz, nm), 0.001, 0.1), mavg=env.arr('mavg', (nb, nz), 1e12, 1e14))

    seen = V['seen'] = []

    class SymHOD(hod.HaloOccupationDistribution):
        _defaults = {}

        def __init__(self, cosmo=None, mass=None, dndlnm=None, halo_bias=None, z_vec=None, hod_settings=None, **kw):
            seen.append(dict(m=mass, dndlnm=dndlnm, halo_bias=halo_bias, z=z_vec, cosmo=cosmo))
            super().__init__(cosmo=cosmo, mass=mass, dndlnm=dndlnm, halo_bias=halo_bias, z_vec=z_vec, hod_settings=hod_settings, **kw)

        number_density_cen = property(lambda s: V['n_c'] * 1.0)
        number_density_sat = property(lambda s: V['n_s'] * 1.0)
        number_density = property(lambda s: V['n_c'] + V['n_s'])
        f_c = property(lambda s: V['f_c'] * 1.0)
        f_s = property(lambda s: V['f_s'] * 1.0)
        hod_cen = property(lambda s: V['N_c'] * 1.0)
        hod_sat = property(lambda s: V['N_s'] * 1.0)
        hod = property(lambda s: V['N_c'] + V['N_s'])
        stellar_fraction = property(lambda s: V['fstar'] * 1.0)
        avg_halo_mass_cen = property(lambda s: V['mavg'] * 1.0)
    if not cof:
        return SymHOD, V
    # a model that goes by the name of the conditional one: its stellar fractions depend on the settings it was given
    V['fstar_mm'] = env.arr('fstar_mm', (1, nz, nm), 0.001, 0.1)
    kind = {'sample': V['fstar'], 'matter': V['fstar_mm']}
    return type('Cacciato', (SymHOD,), dict(_defaults={}, stellar_fraction=property(lambda s: kind[s.hod_settings['kind']] * 1.0))), V


def replace_everywhere(env, old, new):
    for m in env.loader().mods.values():
        for k, v in list(vars(m).items()):
            if v is old:
                setattr(m, k, new)


def make_ia(env, w):
    """SatelliteAlignment with arbitrary central amplitude and satellite profile per redshift."""
    ia = env.load('onepower.ia')
    agi = env.arr('align_gi', (w.nz,), 0.5, 8.0)
    wkm = env.arr('wkm', (w.nz, w.nm, w.nk), 0.01, 2.0)
    seen = {}

    env.replacing(ia.SatelliteAlignment, 'alignment_gi', 'upsampled_wkm')
    env.unhit.clear()

    class SymIA(ia.SatelliteAlignment):
        alignment_gi = property(lambda s: agi * 1.0)

        def upsampled_wkm(s, k, m):
            seen['args'] = (k, m)
            seen['obj'] = s
            return wkm * 1.0
    replace_everywhere(env, ia.SatelliteAlignment, SymIA)
    return dict(gi=agi, wkm=wkm, seen=seen)


class Case:
    """One Spectra object and everything it was built from."""

    def __init__(self, env, mode=None, hmcode=None, nz=2, nk=2, nm=3, nb=1, hod=False, ia=False, pk='given', bnl=False, t1='on', t2='on',
                 t1ia='on', t2ia='on', align=None, nl=False, world=None, extra=None, poisson=None):
        self.env, self.mode, self.hmcode = env, mode, hmcode
        w = self.w = World(env, nz=nz, nk=nk, nm=nm, **(world or {}))
        self.nb, self.nz, self.nk, self.nm = nb, nz, nk, nm
        self.cosmo = cosmology(env)
        kw = dict(self.cosmo, z_vec=w.z, k_vec=w.k, nonlinear_mode=mode, hmcode_ingredients=hmcode, halo_profile_model_sat=w.sat_name)
        self.par = P = {}
        P['k1'] = env.real('one_halo_ktrunc', 0.02, 5.0) if t1 == 'on' else None
        P['k2'] = env.real('two_halo_ktrunc', 0.02, 5.0) if t2 == 'on' else None
        P['k1ia'] = env.real('one_halo_ktrunc_ia', 0.02, 5.0) if t1ia == 'on' else None
        P['k2ia'] = env.real('two_halo_ktrunc_ia', 0.02, 5.0) if t2ia == 'on' else None
        kw.update(one_halo_ktrunc=P['k1'], two_halo_ktrunc=P['k2'], one_halo_ktrunc_ia=P['k1ia'], two_halo_ktrunc_ia=P['k2ia'])
        P['mb'] = env.real('mb', 1e13, 1e15)
        kw['mb'] = P['mb']
        P['t_eff'] = env.real('t_eff', 0.0, 1.0, special=[0.0, 1.0])
        kw['t_eff'] = P['t_eff']
        if pk == 'given':
            P['pk'] = env.arr('plin', (nz, nk), 0.5, 50.0)
            kw['matter_power_lin'] = P['pk']
        if nl:
            P['nl'] = env.arr('pnl', (nz, nk), 0.5, 80.0)
            kw['matter_power_nl'] = P['nl']
        if bnl:
            P['bnl'] = env.arr('bnl', (nz, nk, nm, nm), -0.9, 2.0)
            kw['beta_nl'] = P['bnl']
        if ia:
            self.ia = make_ia(env, w)
            P['align'] = dict(gamma_2h_amplitude=1.0, central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass')
            for n, lo, hi in (('beta_cen', -1.0, 1.5), ('beta_sat', -1.0, 1.5), ('mpivot_cen', 12.0, 14.5), ('mpivot_sat', 12.0, 14.5)):
                P['align'][n] = env.real(n, lo, hi)
            P['align'].update(align or {})
            kw['align_params'] = dict(P['align'])
        if hod:
            H, self.V = make_hod(env, w, nb, cof=hod == 'cof')
            kw['hod_model'] = H
            if hod == 'cof':
                kw.update(hod_settings=dict(kind='sample'), hod_settings_mm=dict(kind='matter'), obs_settings=dict(kind='observable'))
        pois = env.load('onepower.utils.poisson')
        if poisson == 'power_law':
            P['poisson'] = (env.real('pois_A', 0.2, 2.0), env.real('pois_piv', 12.0, 14.0), env.real('pois_slope', -1.0, 1.0))
            kw['poisson_model'] = pois.power_law
            kw['poisson_params'] = dict(poisson=P['poisson'][0], pivot=P['poisson'][1], slope=P['poisson'][2])
        elif poisson == 'constant':
            P['poisson'] = (env.real('pois_A', 0.2, 2.0),)
            kw['poisson_model'] = pois.constant
            kw['poisson_params'] = dict(poisson=P['poisson'][0])
        kw.update(extra or {})
        self.kw = kw
        self.pk_mod = env.load('onepower.pk')
        self.s = self.pk_mod.Spectra(**kw)


    def check_occupation(self):
        """The occupation model was given the halo model's own masses, mass function, bias and redshifts."""
        env, w = self.env, self.w
        for s in self.V['seen']:
            env.equal('occupation uses the halo masses', s['m'], w.m)
            env.equal('occupation uses the redshifts', s['z'], w.z)
            for n in ('dndlnm', 'halo_bias'):
                env.equal(f'occupation uses the halo model {n}', s[n], env.np.array([list(w.q(n, i)) for i in range(self.nz)]))


class Ref:
    """Halo-model equations, written out element by element."""

    def __init__(self, c):
        self.c, self.env, self.w = c, c.env, c.w
        self.np = c.env.np
        w = self.w
        self.m, self.k, self.z = list(w.m), list(w.k), list(w.z)
        R = range(c.nz)
        self.dn = [list(w.q('dndlnm', i)) for i in R]
        self.b = [list(w.q('halo_bias', i)) for i in R]
        self.rho = [w.q('mean_density0', i) for i in R]
        self.s8 = [w.q('sigma8_z', i)[0] for i in R]
        self.ne = [w.q('n_eff_at_collapse', i) for i in R]
        self.uc = [self._norm(w.u(i, 'cen')) for i in R]
        self.us = [self._norm(w.u(i, 'sat')) for i in R] if 'hod_model' in c.kw else None
        self.om = c.cosmo['omega_c'] + c.cosmo['omega_b']
        self._memo = {}

    def _norm(self, u):
        return [[u[j, q] / u[0, q] for q in range(self.c.nm)] for j in range(self.c.nk)]

    def out(self, f, nb=1):
        c = self.c
        a = [[[f(b, i, j) for j in range(c.nk)] for i in range(c.nz)] for b in range(nb)]
        return self.np.array(a)

    def integ(self, f):
        """Simpson integral over halo mass of f(mass index)."""
        return self.env.simpson(self.np.array([f(q) for q in range(self.c.nm)]), x=self.w.m)

    def memo(self, key, f):
        if key not in self._memo:
            self._memo[key] = f()
        return self._memo[key]

    # -- damping
    def d1(self, j):
        k0 = self.c.par['k1']
        if k0 is None:
            return 1.0
        x = self.k[j] / k0
        return x ** 4 / (1.0 + x ** 4)

    def d2(self, j):
        if self.c.par['k2'] is None:
            return 1.0
        x = (self.k[j] / 0.05699) ** 2.853
        return 1.0 - 0.05 * x / (1.0 + x)

    def d1ia(self, j):
        k0 = self.c.par['k1ia']
        return 1.0 if k0 is None else 1.0 - self.np.exp(-(self.k[j] / k0) ** 2)

    def d2ia(self, j):
        k0 = self.c.par['k2ia']
        return 1.0 if k0 is None else self.np.exp(-(self.k[j] / k0) ** 2)

    def d1m(self, i, j):
        x = self.k[j] / (0.05618 * self.s8[i] ** -1.013)
        return x ** 4 / (1.0 + x ** 4)

    def d2m(self, i, j):
        x = (self.k[j] / (0.05699 * self.s8[i] ** -1.089)) ** 2.853
        return 1.0 - 0.2696 * self.s8[i] ** 0.9403 * x / (1.0 + x)

    # -- matter
    def plin(self, i, j):
        return self.c.par['pk'][i, j]

    def A(self, i):
        return self.memo(('A', i), lambda: 1.0 - self.integ(lambda q: self.b[i][q] * self.dn[i][q] / self.rho[i]))

    def Im(self, i, j):
        return self.memo(('Im', i, j), lambda: self.integ(lambda q: self.b[i][q] * self.dn[i][q] * self.uc[i][j][q] / self.rho[i]) + self.A(i))

    def W(self, i, j, q):
        return self.m[q] / self.rho[i] * self.uc[i][j][q]

    def fgas(self, i, q, mb, fstar):
        x = (self.m[q] / mb) ** 2
        return (self.c.cosmo['omega_b'] / self.om - fstar) * x / (1.0 + x)

    def W_feedback(self, i, j, q):
        th = self.c.cosmo['log10T_AGN'] - 7.8
        fs = (2.01 - 0.3 * th) * 0.01 * 10.0 ** (self.z[i] * (0.409 + 0.0224 * th))
        mb = 10.0 ** (13.87 + 1.81 * th + self.z[i] * (0.195 * th - 0.108))
        return self.m[q] / self.rho[i] * ((self.c.cosmo['omega_c'] / self.om + self.fgas(i, q, mb, fs)) * self.uc[i][j][q] + fs)

    def W_fit(self, i, j, q, fs):
        return self.m[q] / self.rho[i] * ((self.c.cosmo['omega_c'] / self.om + self.fgas(i, q, self.c.par['mb'], fs)) * self.uc[i][j][q] + fs)

    def W1(self, b, i, j, q, pointmass=False, mm=False):
        """Matter profile of the one-halo term."""
        h = self.c.hmcode
        if h == 'mead2020_feedback':
            return self.W_feedback(i, j, q)
        if h == 'fit' or (pointmass and h is None):
            fs = (self.c.V['fstar_mm'][0, i, q] if 'fstar_mm' in self.c.V else 0.0) if mm else self.c.V['fstar'][b, i, q]
            return self.W_fit(i, j, q, fs)
        return self.W(i, j, q)

    def one_halo(self, i, f):
        return self.integ(lambda q: f(q) * self.dn[i][q] / self.m[q])

    def tw(self):
        """Trapezoid weights."""
        m, n = self.m, self.c.nm
        w = []
        for q in range(n):
            lo = m[q - 1] if q > 0 else m[q]
            hi = m[q + 1] if q < n - 1 else m[q]
            w.append((hi - lo) * 0.5)
        return w

    def inl(self, i, j, f1, f2):
        """Double mass integral of the non-linear bias with the three compensation terms."""
        B, n = self.c.par['bnl'], self.c.nm
        w = self.memo('tw', self.tw)
        g = self.memo(('g', i), lambda: [w[q] * self.b[i][q] * self.dn[i][q] / self.m[q] for q in range(n)])
        A, r = self.A(i), self.rho[i] / self.m[0]
        t22 = sum(B[i, j, p, q] * g[p] * g[q] * f1(p) * f2(q) for p in range(n) for q in range(n))
        t11 = B[i, j, 0, 0] * A * A * f1(0) * f2(0) * r * r
        t12 = A * r * f1(0) * sum(B[i, j, 0, q] * g[q] * f2(q) for q in range(n))
        t21 = A * r * f2(0) * sum(B[i, j, q, 0] * g[q] * f1(q) for q in range(n))
        return t11 + t12 + t21 + t22

    # -- galaxies
    def pc(self, b, i, q):
        V = self.c.V
        return V['f_c'][b, i] * V['N_c'][b, i, q] / V['n_c'][b, i]

    def ps(self, b, i, j, q):
        V = self.c.V
        return V['f_s'][b, i] * V['N_s'][b, i, q] * self.us[i][j][q] / V['n_s'][b, i]

    def Ic(self, b, i):
        return self.memo(('Ic', b, i), lambda: self.integ(lambda q: self.pc(b, i, q) * self.b[i][q] * self.dn[i][q] / self.m[q]))

    def Is(self, b, i, j):
        return self.memo(('Is', b, i, j), lambda: self.integ(lambda q: self.ps(b, i, j, q) * self.b[i][q] * self.dn[i][q] / self.m[q]))

    def poisson(self, q):
        p = self.c.par.get('poisson', (1.0,))
        return p[0] if len(p) == 1 else p[0] * self.np.exp(p[2] * (self.np.log(self.m[q]) - p[1] * 2.302585092994046))

    # -- alignments
    def mass_fac(self, b, i, which):
        al, V = self.c.par['align'], self.c.V
        beta, piv = al[f'beta_{which}'], al[f'mpivot_{which}']
        if beta is None or piv is None:
            return 1.0
        return self.np.exp(beta * (self.np.log(V['mavg'][b, i] / (V['n_c'][b, i] + V['n_s'][b, i])) - piv * 2.302585092994046))

    def C1(self, i):
        return 5e-14 * self.c.ia['gi'][i]

    def ac(self, b, i, q):
        return self.c.V['f_c'][b, i] * self.C1(i) / self.w.growth(i) * self.m[q] * self.memo(('mf', b, i, 'cen'), lambda: self.mass_fac(b, i, 'cen'))

    def as_(self, b, i, j, q):
        V = self.c.V
        return V['f_s'][b, i] * V['N_s'][b, i, q] / V['n_s'][b, i] * self.c.ia['wkm'][i, q, j] * self.memo(('mf', b, i, 'sat'), lambda: self.mass_fac(b, i, 'sat'))

    def Ica(self, b, i):
        return self.memo(('Ica', b, i), lambda: self.integ(lambda q: self.ac(b, i, q) * self.b[i][q] * self.dn[i][q] / self.m[q]) + self.A(i) * self.ac(b, i, 0) * self.rho[i] / self.m[0])

    def Isa(self, b, i, j):
        return self.memo(('Isa', b, i, j), lambda: self.integ(lambda q: self.as_(b, i, j, q) * self.b[i][q] * self.dn[i][q] / self.m[q]) + self.A(i) * self.as_(b, i, j, 0) * self.rho[i] / self.m[0])

    def peff(self, i, j):
        t = self.c.par['t_eff']
        return (1.0 - t) * self.c.par['nl'][i, j] + t * self.c.par['pk'][i, j]


def result(env, label, r, p1, p2, tot, bias=None):
    env.equal(f'{label} one-halo', r.pk_1h, p1)
    env.equal(f'{label} two-halo', r.pk_2h, p2)
    env.equal(f'{label} total', r.pk_tot, tot)
    if bias is not None:
        env.equal(f'{label} linear bias', r.galaxy_linear_bias, bias)
