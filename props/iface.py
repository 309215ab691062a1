"""The CosmoSIS module over a stand-in halo model whose quantities are arbitrary functions of all its parameters."""
from symx.world import World, keyable
from .common import replace_everywhere
from .cosmosis import Block, stand_in, OPT, COSMO
from symx.engine import WIDE

WIDE.clear()          # the ranges here tell the options and the consecutive calls apart

NM = 2
# (zmin, zmax, nz, nk) of the model; redshifts and wavenumbers of the input power
GRIDS = {
    'base': ((0.1, 0.7, 2, 3), [0.0, 0.5, 1.0], [0.05, 0.1, 0.8]),
    'fine': ((0.0, 1.25, 6, 7), [0.0, 0.5, 2.0], [0.05, 0.1, 0.8]),                       # model finer than the output
    'coarse': ((0.25, 1.0, 2, 2), [0.0, 0.125, 0.375, 0.75, 1.5], [0.05, 0.1, 0.15, 0.3, 0.5, 0.8]),
    'alike': ((0.25, 0.75, 3, 3), [0.25, 0.5, 0.75], [0.25, 0.5, 1.0]),                   # the same grids
    'alike in size': ((0.125, 0.875, 3, 4), [0.0, 0.25, 1.0], [0.05, 0.1, 0.3, 0.8]),
}
SPECTRA = ('mm', 'gg', 'gm', 'gi', 'ii', 'mi')
HOD_PARAMS = {
    'Zheng': ['log10_Mmin', 'sigma', 'log10_M0', 'log10_M1', 'alpha'],
    'Zhai': ['log10_Mmin', 'sigma', 'log10_Msat', 'log10_Mcut', 'alpha'],
    'Cacciato': ['log10_obs_norm_c', 'log10_m_ch', 'g1', 'g2', 'sigma_log10_O_c', 'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2'],
}
# quantities saved from the model: attribute -> axes
MODEL = dict(mass='m', mean_density0='z', mean_density_z='z', rho_halo='z', dndlnm='zm', halo_bias='zm', nu='zm', neff='z', sigma8_z='z', fnu='z',
             u_dm='zkm', u_sat='zkm', conc_cen='zm', conc_sat='zm', r_s_cen='zm', r_s_sat='zm', rvir_cen='zm', rvir_sat='zm')
HODQ = dict(hod_cen='bzm', hod_sat='bzm', hod='bzm', number_density_cen='bz', number_density_sat='bz', number_density='bz', f_c='bz', f_s='bz', stellar_fraction='bzm', mass_avg='bz')
OBSQ = dict(obs_func='bzo', obs_func_cen='bzo', obs_func_sat='bzo', obs_func_z='bz', obs_func_obs='b1o')
DERIVED = ('matter_power_lin', 'matter_power_nl', 'k_vec', 'z_vec', 'transfer_params', 'growth_params', 'beta_nl', 'lnk_min', 'lnk_max', 'dlnk')


ALIGN = ('central_ia_depends_on', 'satellite_ia_depends_on', 'beta_cen', 'mpivot_cen', 'beta_sat', 'mpivot_sat', 'gamma_1h_slope', 'gamma_1h_amplitude', 'gamma_2h_amplitude')
IA = ('align_params', 't_eff', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia')
OBS = ('obs_settings', 'compute_observable')
GAL = ('hod_settings', 'poisson_model', 'poisson_params', 'pointmass')


def irrelevant(name):
    """Parameters a quantity cannot depend on."""
    if name in MODEL:
        return IA + OBS + GAL + ('hod_settings_mm', 'hod_params', 'hod_model')
    if name in HODQ:
        return IA + OBS + ('hod_settings_mm', 'poisson_model', 'poisson_params', 'pointmass')
    if name in OBSQ:
        return IA + GAL + ('hod_settings_mm',)
    if name.startswith('P_mm'):
        return IA + OBS + GAL
    if name.startswith(('P_gg', 'P_gm', 'bias_')):
        return IA + OBS
    return OBS


def settings(d):
    """Occupation settings that matter: a table of observables replaces the bin edges."""
    if not d:
        return {}
    d = {k: v for k, v in d.items() if k not in ('save_observable', 'observable_section_name')}
    if d.get('observables_file') is not None:
        return {k: v for k, v in d.items() if k not in ('obs_min', 'obs_max', 'zmin', 'zmax', 'nz')}
    return d


def named(v):
    return getattr(v, '__name__', v)


def toy(env):
    """Stand-in for Spectra: real parameters and update machinery, arbitrary quantities."""
    pk = env.load('onepower.pk')
    log = []

    def params(s, name):
        return {n: v for n, v in s.parameter_values.items() if n not in irrelevant(name)}

    def key(s, name):
        p = params(s, name)
        out = {}
        for n, v in p.items():
            if n in DERIVED:
                continue
            if n in ('hod_settings', 'hod_settings_mm', 'obs_settings'):
                v = settings(v)
            if n == 'align_params':
                v = {a: b for a, b in v.items() if a in ALIGN}
            out[n] = keyable(named(v))
        return out

    def nbins(d):
        d = settings(d)
        return 1 if not d or d.get('observables_file') is not None else len(d['obs_min'])

    def q(s, name, axes, tag=''):
        n = dict(m=NM, z=len(s.z_vec), k=len(s.k_vec), b=nbins(s.obs_settings if axes.startswith('b') and name in OBSQ else s.hod_settings), o=3)
        if name in OBSQ:
            o = settings(s.obs_settings)
            n['z'] = 3 if o.get('observables_file') is not None else o.get('nz', 2)
            n['o'] = o.get('nobs', 3)
        n['1'] = 1
        log.append((name, s, params(s, name)))
        return env.opaque(f'{name}{tag}', [key(s, name)], tuple(n[a] for a in axes), pos=True, lo=0.5, hi=50.0)

    class Hod:
        def __init__(self, s):
            self.s = s

        def __getattr__(self, n):
            if n == 'avg_halo_mass_cen':
                return self.mass_avg * self.number_density
            if n in HODQ:
                return q(self.s, n, HODQ[n], 'hod')
            raise AttributeError(n)

    body = {n: property(lambda s, n=n, a=a: q(s, n, a)) for n, a in MODEL.items()}
    body['hod'] = property(lambda s: Hod(s))
    body['fstar'] = property(lambda s: q(s, 'stellar_fraction', 'bzm', 'hod'))
    body['mass_avg'] = property(lambda s: q(s, 'mass_avg', 'bz', 'hod'))
    for n, a in OBSQ.items():
        body[n] = property(lambda s, n=n, a=a: q(s, n, a) if s.compute_observable else None)
    for mode in SPECTRA:
        def spec(s, m=mode):
            r = {f'pk_{c}': q(s, f'P_{m}_{c}', 'bzk' if m != 'mm' else '1zk') for c in ('1h', '2h', 'tot')}
            return pk.PowerSpectrumResult(galaxy_linear_bias=q(s, f'bias_{m}', 'bzk') if m in ('gg', 'gm') else None, **r)
        body[f'power_spectrum_{mode}'] = property(spec)
    Toy = type('Spectra', (pk.Spectra,), body)
    replace_everywhere(env, pk.Spectra, Toy)
    return Toy, log


class Run:
    """One set-up of the CosmoSIS module."""

    def __init__(self, env, want=('mm',), mode=None, response=False, split=False, hod='Cacciato', poisson='constant', nb=2, file=False, file_ia=True, observable=None,
                 cen='halo_mass', sat='halo_mass', trunc='given', ab=True, suffix=('ia', 'ia_2'), hmcode=None, defaults=False, dewiggle=True, nbia=1, grid='base'):
        self.env = env
        self.__dict__.update({k: v for k, v in locals().items() if k not in ('self', 'env')})
        World(env, nz=2, nk=2, nm=NM)
        stand_in(env)
        self.Toy, self.log = toy(env)
        if mode == 'bnl':
            self.emulations = []
            run = self

            class Bias:
                def __init__(self, **kw):
                    run.emulations.append(kw)
                    self.kw, self.i = kw, len(run.emulations)

                @property
                def bnl(self):
                    return env.opaque(f'emulated_bias{self.i}', [keyable({k: v for k, v in self.kw.items() if k not in ('mass', 'z_vec', 'k_vec')})], (1, run.nk, NM, NM), lo=float(self.i), hi=self.i + 0.9)
            b = env.load('onepower.bnl')
            replace_everywhere(env, b.NonLinearBias, Bias)
            b.HAVE_DARKEMU = True
        self.m = env.load('cosmosis_modules.onepower_interface')
        self.galaxy = bool({'gg', 'gm'} & set(want))
        self.align = bool({'gi', 'ii', 'mi'} & set(want))
        (self.z0, self.z1, self.nz, self.nk), self.ZB, self.KB = GRIDS[grid]
        self.o = self.options()

    def names(self):
        return {'mm': 'p_mm', 'gg': 'p_gg', 'gm': 'p_gm', 'gi': 'p_gI', 'ii': 'p_II', 'mi': 'p_mI'}

    def hodset(self, suf, nb, file):
        env = self.env
        if file:
            d = {f'observables_file_{suf}': f'/data/{suf}.txt'}
        else:
            d = {}
            for j, n in enumerate(('log10_obs_min', 'log10_obs_max', 'zmin', 'zmax')):
                c = 0.1 * ('hod', 'ia', 'ia_1', 'ia_2', 'smf').index(suf)
                v = env.arr(f'{n}_{suf}', (nb,), *((8.0 + c, 8.08 + c), (10.0 + c, 10.08 + c), (0.01 + 0.5 * c, 0.04 + 0.5 * c), (0.4 + c, 0.48 + c))[j])
                d[f'{n}_{suf}'] = v if nb > 1 else v[0]
            d[f'nz_{suf}'] = dict(hod=3, ia=4, ia_1=5, ia_2=6, smf=self.observable_nz())[suf]
        d[f'nobs_{suf}'] = dict(hod=30, ia=40, ia_1=50, ia_2=60, smf=3)[suf]
        return d

    def observable_nz(self):
        return 1 if self.observable == 'single' else 2

    def options(self):
        env = self.env
        o = {self.names()[w]: True for w in self.want}
        if self.response:
            o['response'] = True
        if self.mode:
            o['nonlinear_mode'] = self.mode
        if self.mode == 'bnl':
            o['update_bnl'] = 2
        if self.hmcode:
            o['hmcode_ingredients'] = self.hmcode
        if self.split:
            o['split_ia'] = True
        o['poisson_type'] = self.poisson
        if not self.defaults:
            lo, hi = (10.0, 15.0) if self.mode == 'bnl' else (env.real('log_mass_min', 9.1, 10.0), env.real('log_mass_max', 14.5, 15.5))
            o.update(log_mass_min=lo, log_mass_max=hi, nmass=5, overdensity=env.real('overdensity', 210.0, 400.0),
                     delta_c=env.real('delta_c', 1.5, 1.68), profile_cen='Einasto', profile_sat='Moore', profile_value_name='prof', hmf_model='SMT', mdef_model='SOCritical',
                     cm_model_cen='Bullock01', cm_model_sat='Ludlow16', bias_model='SMT01', dewiggle=self.dewiggle, point_mass=True, values_name='my_hod', hod_section_name='hod_out',
                     hod_model=self.hod, observable_h_unit='1/h')
        o.update(zmin_hmf=self.z0, zmax_hmf=self.z1, nz_hmf=self.nz, nk=self.nk)
        for n in ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia'):
            if self.trunc == 'given' or (self.trunc in ('matter', 'ia') and n.endswith('_ia') == (self.trunc == 'ia')) or (self.trunc in ('one', 'two') and n.startswith(self.trunc)):
                o[n] = env.real(n, *dict(one_halo_ktrunc=(0.2, 1.0), two_halo_ktrunc=(2.5, 5.0), one_halo_ktrunc_ia=(4.5, 5.5), two_halo_ktrunc_ia=(6.5, 9.0))[n])
            elif self.trunc != 'default':
                o[n] = 'None'
        if self.galaxy:
            o.update(self.hodset('hod', self.nb, self.file))
        if self.align:
            for s in (('ia_1', 'ia_2') if self.split else ('ia',)):
                o.update(self.hodset(s, self.nbia, self.file_ia))
                if not self.defaults:
                    o[f'hod_section_name_{s}'] = f'hod_{s}'
            if self.suffix:
                if self.split:
                    o.update(output_suffix_ia_1=self.suffix[0], output_suffix_ia_2=self.suffix[1])
                else:
                    o['output_suffix_ia'] = self.suffix[0]
            o.update(central_IA_depends_on=self.cen, satellite_IA_depends_on=self.sat)
        if self.observable:
            o['save_observable'] = True
            if not self.defaults:
                o['observable_section_name'] = 'smf_out'
            o.update(self.hodset('smf', 2 if self.observable == 'bins' else 1, self.observable == 'file'))
        return o

    def setup(self):
        o = Block({(OPT, k): v for k, v in self.o.items()})
        return self.m.setup(o)

    def values(self, g=0):
        """A data block with arbitrary values (generation g)."""
        env = self.env
        v = {}

        def put(sec, name, lo, hi, key=None):
            w = (hi - lo) / 3.0
            v[sec, name] = env.real(f'{key or name}#{g}', lo + g * w, lo + (g + 0.9) * w)
        kb = env.np.array([x * (1.0 + 0.5 * g) for x in self.KB])
        zb = env.np.array([x * (1.0 + 0.25 * g) for x in self.ZB])
        n = len(self.KB)
        v['matter_power_lin', 'k_h'], v['matter_power_lin', 'z'] = kb, zb
        v['matter_power_lin', 'p_k'] = env.arr(f'plin#{g}', (len(self.ZB), n), 0.5 * 10.0**g, 4.0 * 10.0**g)
        if self.response or self.mode == 'fortuna':
            v['matter_power_nl', 'k_h'], v['matter_power_nl', 'z'] = env.np.array([0.04, 0.2, 1.5]), env.np.array([0.0, 0.3, 1.25])
            v['matter_power_nl', 'p_k'] = env.arr(f'pnl#{g}', (3, 3), 0.5 * 10.0**g, 4.0 * 10.0**g)
        v['matter_power_transfer_func', 'k_h'] = env.np.array([0.01, 1.0])
        v['matter_power_transfer_func', 't_k'] = env.arr(f'tk#{g}', (2,), 0.1 + 0.3 * g, 0.3 + 0.3 * g)
        v['growth_parameters', 'z'] = env.np.array([0.0, 1.0])
        v['growth_parameters', 'd_z'] = env.arr(f'dz#{g}', (2,), 0.1 + 0.3 * g, 0.3 + 0.3 * g)
        for name, lo, hi in (('omega_c', 0.255, 0.35), ('omega_b', 0.03, 0.048), ('omega_m', 0.25, 0.35), ('h0', 0.71, 0.8), ('n_s', 0.92, 1.0), ('sigma_8', 0.81, 0.95), ('A_s', 1e-9, 3e-9), ('mnu', 0.07, 0.2), ('w', -0.95, -0.6), ('wa', 0.05, 0.5)):
            put(COSMO, name, lo, hi)
        put('halo_model_parameters', 'logT_AGN', 7.85, 8.3)
        if not self.defaults:
            put(COSMO, 'TCMB', 2.73, 2.9)
            put('halo_model_parameters', 'm_b', 13.9, 15.0)
            for name, lo, hi in (('norm_cen', 1.1, 2.0), ('norm_sat', 1.1, 2.0), ('eta_cen', 0.1, 0.5), ('eta_sat', 0.1, 0.5)):
                put('prof', name, lo, hi)
        if self.galaxy or self.align:
            hv = 'hod_parameters' if self.defaults else 'my_hod'
            for p in HOD_PARAMS[self.hod]:
                if self.hod == 'Cacciato':
                    put(hv, p, 0.5, 2.0, 'hod_' + p)
                else:
                    nb = self.nbins()
                    for b in range(nb):
                        put(hv, f'{p}_{b + 1}' if nb > 1 else p, 0.5, 2.0, f'hod_{p}_{b + 1}')
            if self.ab:
                put(hv, 'A_cen', -0.5, 0.5)
                put(hv, 'A_sat', -0.5, 0.5)
            for p in ['poisson'] if self.poisson == 'constant' else ['poisson', 'pivot', 'slope']:
                put('pk_parameters', p, 0.5, 2.0, 'pois_' + p)
        if self.align:
            if not self.defaults:
                put('pk_parameters', 'linear_fraction_fortuna', 0.1, 1.0)
            for i, s in enumerate(self.suffixes()):
                for name, lo, hi in (('M_pivot', 13.0, 14.0), ('gamma_2h_amplitude', 1.0, 6.0), ('beta', 0.1, 1.0), ('gamma_1h_radial_slope', -2.5, -1.5), ('gamma_1h_amplitude', 0.001, 0.01), ('beta_sat', 0.1, 1.0)):
                    put('intrinsic_alignment_parameters' + s, name, lo, hi, f'{name}_{i}')
        return Block(v)

    def suffixes(self):
        s = [f'_{x}' for x in self.suffix] if self.suffix else ['', '']
        return s[:2] if self.split else s[:1]

    def nbins(self):
        return 1 if self.file else self.nb

    # -- what the model must be given
    def hod_settings(self, suf):
        o, np = self.o, self.env.np
        d = dict(nobs=o[f'nobs_{suf}'], observable_h_unit='1/h^2' if self.defaults else '1/h')
        if f'observables_file_{suf}' in o:
            d['observables_file'] = o[f'observables_file_{suf}']
            return d
        d['observables_file'] = None
        for a, b in (('obs_min', 'log10_obs_min'), ('obs_max', 'log10_obs_max'), ('zmin', 'zmin'), ('zmax', 'zmax')):
            v = o[f'{b}_{suf}']
            d[a] = v if getattr(v, 'ndim', 0) else np.array([v])
        d['nz'] = o[f'nz_{suf}']
        return d

    def hod_settings_mm(self):
        d, np = self.hod_settings('hod'), self.env.np
        if d['observables_file'] is None:
            d['nz'] = 15
            for n in ('obs_min', 'zmin'):
                d[n] = np.array([np.min(d[n])])
            for n in ('obs_max', 'zmax'):
                d[n] = np.array([np.max(d[n])])
        d['nobs'] = 100
        return d

    def k_vec(self, block):
        k = block['matter_power_lin', 'k_h']
        return self.env.np.logspace(self.env.np.log10(k[0]), self.env.np.log10(k[-1]), self.nk)

    def z_vec(self):
        return self.env.np.linspace(self.z0, self.z1, self.nz)

    def power(self, block, sec):
        """Input power at the halo model's redshifts (linear) and wavenumbers (log-log)."""
        env, np = self.env, self.env.np
        P = env.lin_interp(block[sec, 'z'], block[sec, 'p_k'], self.z_vec(), axis=0)
        return np.exp(env.lin_interp(np.log(block[sec, 'k_h']), np.log(P), np.log(self.k_vec(block)), axis=1))

    def expected(self, block, which='galaxy'):
        """Parameters the documentation assigns to the model; which: galaxy, or population 0/1 of the alignment part."""
        env, o, np = self.env, self.o, self.env.np
        B = lambda s, n, d=None: block[s, n] if block.has_value(s, n) else d  # noqa: E731
        lo, hi = o.get('log_mass_min', 9.0), o.get('log_mass_max', 16.0)
        prof = o.get('profile_value_name', 'profile_parameters')
        e = dict(matter_power_lin=self.power(block, 'matter_power_lin'), hmcode_ingredients=self.hmcode, nonlinear_mode=self.mode, dewiggle=o.get('dewiggle', False), k_vec=self.k_vec(block), z_vec=self.z_vec(),
                 Mmin=lo, Mmax=hi, dlog10m=(hi - lo) / o.get('nmass', 200), mdef_model=o.get('mdef_model', 'SOMean'), hmf_model=o.get('hmf_model', 'Tinker10'), bias_model=o.get('bias_model', 'Tinker10'),
                 halo_profile_model_dm=o.get('profile_cen', 'NFW'), halo_profile_model_sat=o.get('profile_sat', 'NFW'), halo_concentration_model_dm=o.get('cm_model_cen', 'Duffy08'), halo_concentration_model_sat=o.get('cm_model_sat', 'Duffy08'),
                 transfer_params=dict(k=block['matter_power_transfer_func', 'k_h'], T=block['matter_power_transfer_func', 't_k']), growth_params=dict(z=block['growth_parameters', 'z'], d=block['growth_parameters', 'd_z']),
                 transfer_model='FromArray', growth_model='FromArray',
                 norm_cen=B(prof, 'norm_cen', 1.0), norm_sat=B(prof, 'norm_sat', 1.0), eta_cen=B(prof, 'eta_cen', 0.0), eta_sat=B(prof, 'eta_sat', 0.0), overdensity=o.get('overdensity', 200.0), delta_c=o.get('delta_c', 1.686),
                 omega_c=B(COSMO, 'omega_c'), omega_b=B(COSMO, 'omega_b'), h0=B(COSMO, 'h0'), n_s=B(COSMO, 'n_s'), sigma_8=B(COSMO, 'sigma_8'), m_nu=B(COSMO, 'mnu'), w0=B(COSMO, 'w'), wa=B(COSMO, 'wa'), tcmb=B(COSMO, 'TCMB', 2.7255),
                 log10T_AGN=B('halo_model_parameters', 'logT_AGN'), mb=10.0 ** B('halo_model_parameters', 'm_b', 13.87), response=self.response)
        for n, d in (('one_halo_ktrunc', 0.1), ('two_halo_ktrunc', 2.0)) + ((('one_halo_ktrunc_ia', 4.0), ('two_halo_ktrunc_ia', 6.0)) if self.align else ()):
            e[n] = None if o.get(n) == 'None' else o.get(n, d)
        if self.response or self.mode == 'fortuna':
            e['matter_power_nl'] = self.power(block, 'matter_power_nl')
        if self.galaxy or self.align:
            hv = o.get('values_name', 'hod_parameters')
            hp = {}
            for p in HOD_PARAMS[self.hod]:
                if self.hod == 'Cacciato':
                    hp[p] = block[hv, p]
                else:
                    nb = self.nbins()
                    hp[p] = np.array([block[hv, f'{p}_{b + 1}' if nb > 1 else p] for b in range(nb)])
            hp['A_cen'], hp['A_sat'] = B(hv, 'A_cen'), B(hv, 'A_sat')
            e.update(hod_model=self.hod, hod_params=hp, poisson_model=self.poisson, pointmass=o.get('point_mass', False),
                     poisson_params={p: block['pk_parameters', p] for p in (['poisson'] if self.poisson == 'constant' else ['poisson', 'pivot', 'slope'])},
                     compute_observable=bool(self.observable))
            if self.observable:
                e['obs_settings'] = self.hod_settings('smf')
            e['hod_settings'] = self.hod_settings('hod') if self.galaxy else {}
            e['hod_settings_mm'] = self.hod_settings_mm() if self.galaxy else {}
        if self.align:
            e['t_eff'] = B('pk_parameters', 'linear_fraction_fortuna', 0.0)
            pop = which if isinstance(which, int) else 0
            sec = 'intrinsic_alignment_parameters' + self.suffixes()[pop]
            mass = lambda dep, v: v if dep == 'halo_mass' else None  # noqa: E731
            e['align_params'] = dict(central_ia_depends_on=self.cen, satellite_ia_depends_on=self.sat, beta_cen=mass(self.cen, block[sec, 'beta']), mpivot_cen=mass(self.cen, block[sec, 'M_pivot']),
                                     beta_sat=mass(self.sat, block[sec, 'beta_sat']), mpivot_sat=mass(self.sat, block[sec, 'M_pivot']), gamma_1h_slope=block[sec, 'gamma_1h_radial_slope'],
                                     gamma_1h_amplitude=block[sec, 'gamma_1h_amplitude'], gamma_2h_amplitude=block[sec, 'gamma_2h_amplitude'])
            if which != 'galaxy':
                e['hod_settings'] = self.hod_settings(('ia_1', 'ia_2')[pop] if self.split else 'ia')
        return e

    def same_params(self, label, got, want):
        env = self.env
        for n, w in want.items():
            if n in irrelevant(label.split()[0]):
                continue
            compare(env, f'{label}: {n}', got.get(n), w, n)

    def snapshots(self, *names):
        """Distinct parameter sets under which the given quantities were read."""
        out, seen = [], set()
        for n, s, p in self.log:
            if any(n.startswith(x) for x in names):
                k = id(s), repr(sorted((a, id(b)) for a, b in p.items()))
                if k not in seen:
                    seen.add(k)
                    out.append((n, p))
        return out


def compare(env, label, got, want, name=''):
    if name in ('hod_settings', 'hod_settings_mm', 'obs_settings'):
        got = settings(got)
        want = settings(want)
        env.same(f'{label} keys', sorted(got), sorted(want))
    if isinstance(want, dict):
        for k, w in want.items():
            if not isinstance(got, dict) or k not in got:
                env.fails(f'{label}[{k}]', 'missing')
            else:
                compare(env, f'{label}[{k}]', got[k], w)
        return
    if want is None or isinstance(want, (str, bool)):
        env.same(label, named(got), want)
        return
    if got is None or isinstance(got, (str, bool)) or isinstance(got, type):
        env.fails(label, f'{named(got)!r} instead of a number')
        return
    if not getattr(want, 'ndim', 0) and getattr(got, 'ndim', 0):
        # the model stores some numbers as one-element arrays
        want = env.np.array([want] * got.size).reshape(got.shape)
    env.equal(label, got, want)
