"""C11: halo-model plumbing."""
from symx.engine import WIDE
from symx.world import World, Cosmo, Quantity, ConcModel
from .common import ENV_ASSUMPTIONS

WIDE.update(tcmb=(1.0, 4.0), Neff=(0.0, 8.0), Mmin=(3.0, 11.0), Mmax=(12.0, 19.0), dlog10m=(1e-3, 1.0), lnk_min=(-20.0, -2.0), lnk_max=(1.0, 15.0), dlnk=(1e-3, 1.0), overdensity=(10.0, 5e3), delta_c=(1.0, 3.0),
            norm_cen=(0.0, 10.0), norm_sat=(0.0, 10.0), eta_cen=(-3.0, 3.0), eta_sat=(-3.0, 3.0))
ASSUMPTIONS = ['DMHaloModel, Flatw0waCDM and halomod concentrations are stand-ins: every output is an unknown function of the complete configuration the '
               'library would use (cosmology, transfer, growth, mass definition and its parameters, threshold, mass function, bias, profile and concentration with '
               'parameters, redshift); hmf update semantics (dictionaries merge in place, clone copies) are those of hmf 3.6'] + ENV_ASSUMPTIONS[2:]
BOUNDS = 'redshifts nz<=6, wavenumbers 2, masses 2; all parameters arbitrary reals'
OUTSIDE = 'the numerical values hmf/halomod compute (N02); redshift arrays longer than 3'
MEAD = ('mead2020', 'mead2020_feedback')
REAL = dict(h0=(0.5, 0.9), omega_c=(0.1, 0.5), omega_b=(0.02, 0.08), n_s=(0.85, 1.1), sigma_8=(0.5, 1.1), w0=(-1.5, -0.5), wa=(-0.5, 0.5), tcmb=(2.5, 3.0), Neff=(2.5, 4.0),
            m_nu=(0.01, 0.3), log10T_AGN=(7.3, 8.3), Mmin=(8.0, 10.0), Mmax=(14.0, 17.0), dlog10m=(0.01, 0.1), lnk_min=(-10.0, -5.0), lnk_max=(3.0, 9.0), dlnk=(0.01, 0.2),
            overdensity=(100.0, 500.0), delta_c=(1.6, 1.75))


def build(env, hmcode, mdef, nz, arrays, conc=('Duffy08', 'Bullock01'), order='asc'):
    w = World(env, nz=nz, nk=2, nm=2, rich=True)
    v = {n: env.real(n, *r) for n, r in REAL.items()}
    sh = (nz,) if arrays else ()
    pro = {n: (env.arr(n, sh, *r) if arrays else env.real(n, *r)) for n, r in (('norm_cen', (0.5, 1.5)), ('norm_sat', (0.5, 1.5)), ('eta_cen', (-0.3, 0.3)), ('eta_sat', (-0.3, 0.3)))}
    opt = dict(mdef_model=mdef, hmf_model='Jenkins', bias_model='Mo96', halo_profile_model_dm='ProfC', halo_profile_model_sat='ProfS', halo_concentration_model_dm=conc[0],
               halo_concentration_model_sat=conc[1], transfer_model='EH', transfer_params={'tp': 3}, growth_model='Carroll1992', growth_params={'gp': env.real('gp', 0.1, 1.0)},
               hmcode_ingredients=hmcode, z_vec=w.z, k_vec=w.k)
    mod = env.load('onepower.hmi')
    copy = {k: (dict(x) if isinstance(x, dict) else x) for k, x in opt.items()}
    return w, mod, mod.HaloModelIngredients(**v, **pro, **copy), v, pro, opt


def per_z(x, i, arrays):
    return x[i] if arrays else x


def concentration(name):
    import halomod.concentration as c
    return ConcModel('interp', name) if hasattr(c, name) else ConcModel('interp', ConcModel('colossus', name))


def expected(env, w, mod, h, v, pro, opt, hmcode, mdef, arrays, i, role):
    c = Cosmo(env, dict(H0=v['h0'] * 100.0, Ob0=v['omega_b'], Om0=v['omega_c'] + v['omega_b'], Neff=v['Neff'], m_nu=Quantity([0.0, 0.0, v['m_nu']], 'eV'), Tcmb0=v['tcmb'],
                        w0=v['w0'], wa=v['wa']))
    mead = hmcode in MEAD
    if mead:
        dc, md = h.dc_Mead[i], {'overdensity': h.Dv_Mead[i]}
    elif mdef == 'SOVirial':
        dc, md = 0.15 * (12.0 * 3.141592653589793) ** (2.0 / 3.0) * (1.0 + 0.0123 * env.np.log10(c.Om(w.z)[i])), {}
    else:
        dc, md = v['delta_c'], {'overdensity': v['overdensity']}
    e = w.HM(z=w.z[i], lnk_min=v['lnk_min'], lnk_max=v['lnk_max'], dlnk=v['dlnk'], Mmin=v['Mmin'], Mmax=v['Mmax'], dlog10m=v['dlog10m'], sigma_8=v['sigma_8'], n=v['n_s'],
             hmf_model='ST' if mead else opt['hmf_model'], bias_model='ST99' if mead else opt['bias_model'], mdef_model=mod.SOVirial_Mead if mead else mdef, mdef_params=md,
             disable_mass_conversion=mead, delta_c=dc, cosmo_model=c, transfer_model=opt['transfer_model'], transfer_params=opt['transfer_params'],
             growth_model=opt['growth_model'], growth_params=opt['growth_params'], halo_profile_model=opt['halo_profile_model_dm' if role == 'cen' else 'halo_profile_model_sat'])
    eta = 0.1281 * e.sigma8_z[0] ** -0.3644 if mead else per_z(pro['eta_' + role], i, arrays)
    e.p['halo_profile_params'] = {'cosmo': c, 'eta_bloat': eta}
    e.p['halo_concentration_params'] = {'norm': per_z(pro['norm_' + role], i, arrays)}
    if mead:
        e.p['halo_concentration_params']['K'] = h.K[i]
    name = opt['halo_concentration_model_dm' if role == 'cen' else 'halo_concentration_model_sat']
    e.p['halo_concentration_model'] = ConcModel('interp', 'Bullock01') if mead else concentration(name)
    return e, c


CEN = {
    'power': lambda e, k: e.power, 'nonlinear_power': lambda e, k: e.nonlinear_power, 'halo_overdensity_mean': lambda e, k: e.halo_overdensity_mean, 'nu': lambda e, k: e.nu ** 0.5,
    'dndlnm': lambda e, k: e.dndlnm, 'mean_density0': lambda e, k: e.mean_density0, 'mean_density_z': lambda e, k: e.mean_density, 'halo_bias': lambda e, k: e.halo_bias,
    'rho_halo': lambda e, k: e.halo_overdensity_mean * e.mean_density0, 'neff': lambda e, k: e.n_eff_at_collapse, 'sigma8_z': lambda e, k: e.sigma8_z[0],
    'conc_cen': lambda e, k: e.cmz_relation, 'nfw_cen': lambda e, k: e.halo_profile.u(k, e.m), 'r_s_cen': lambda e, k: e.halo_profile._rs_from_m(e.m),
    'rvir_cen': lambda e, k: e.halo_profile.halo_mass_to_radius(e.m),
}
SAT = {
    'conc_sat': lambda e, k: e.cmz_relation, 'nfw_sat': lambda e, k: e.halo_profile.u(k, e.m), 'r_s_sat': lambda e, k: e.halo_profile._rs_from_m(e.m),
    'rvir_sat': lambda e, k: e.halo_profile.halo_mass_to_radius(e.m),
}


def plumbing(env, role, hmcode=None, mdef='SOMean', nz=2, arrays=False, conc=('Duffy08', 'Bullock01'), first=None):
    w, mod, h, v, pro, opt = build(env, hmcode, mdef, nz, arrays, conc)
    if first:
        getattr(h, first)
    for a, f in (CEN if role == 'cen' else SAT).items():
        got = getattr(h, a)
        if len(got) != nz:
            env.fails(f'{a} has one entry per redshift', f'{len(got)} entries for {nz} redshifts')
            continue
        for i in range(nz):
            e, _ = expected(env, w, mod, h, v, pro, opt, hmcode, mdef, arrays, i, role)
            env.equal(f'{a} of redshift {i}', got[i], f(e, w.k))
    e, c = expected(env, w, mod, h, v, pro, opt, hmcode, mdef, arrays, 0, role)
    u = h.nfw_cen if role == 'cen' else h.nfw_sat
    if len(u) == nz:
        env.equal('normalised profile', h.u_dm if role == 'cen' else h.u_sat, env.np.array([[[u[i, j, q] / u[i, 0, q] for q in range(2)] for j in range(2)] for i in range(nz)]))
    if role == 'cen':
        env.equal('mass grid', h.mass, e.m)
        env.equal('wavenumber grid', h.kh, e.k)
        env.equal('growth factor', h.growth_factor, e.growth.growth_factor(w.z))
        env.equal('neutrino fraction', h.fnu, env.np.array([c.Onu0 / c.Om0] * nz))
        env.equal('scale factor', h.scale_factor, env.np.array([1.0 / (1.0 + x) for x in w.z]))
        env.equal('matter density', h.omega_m, v['omega_c'] + v['omega_b'])


def defaults(env):
    """Documented defaults."""
    w = World(env, nz=2, nk=2, nm=2, rich=True)
    mod = env.load('onepower.hmi')
    kw = dict(z_vec=w.z, k_vec=w.k)
    import math
    d = dict(h0=0.7, omega_c=0.25, omega_b=0.05, w0=-1.0, wa=0.0, n_s=0.9, tcmb=2.7255, Neff=3.044, m_nu=0.06, sigma_8=0.8, log10T_AGN=7.8, lnk_min=math.log(1e-4), lnk_max=math.log(1e4),
             dlnk=(math.log(1e4) - math.log(1e-4)) / 100, Mmin=9.0, Mmax=16.0, dlog10m=0.05, mdef_model='SOMean', hmf_model='Tinker10', bias_model='Tinker10',
             halo_profile_model_dm='NFW', halo_concentration_model_dm='Duffy08', halo_profile_model_sat='NFW', halo_concentration_model_sat='Duffy08', transfer_model='CAMB',
             growth_model='CambGrowth', norm_cen=1.0, norm_sat=1.0, eta_cen=0.0, eta_sat=0.0, overdensity=200.0, delta_c=1.686, hmcode_ingredients=None)
    a, b = mod.HaloModelIngredients(**kw), mod.HaloModelIngredients(**kw, **d)
    for n in list(CEN) + list(SAT) + ['growth_factor', 'mass', 'kh']:
        env.equal(f'default {n}', getattr(a, n), getattr(b, n))


def virial_density(env):
    """The HMCode mass definition: mean density of haloes is the overdensity times the mean matter density at that redshift."""
    w = World(env, nz=2, nk=2, nm=2, rich=True)
    mod = env.load('onepower.hmi')
    seen = []

    class D(mod.SOVirial_Mead):
        def mean_density(self, z=0, cosmo=None):
            seen.append(cosmo)
            return env.opaque('mean density', [z], (), pos=True)
    for n in ('mead', 'other'):
        od, z = env.real(f'od_{n}', 100.0, 500.0), env.real(f'z_{n}', 0.0, 2.0)
        c = object()
        d = D(overdensity=od)
        env.equal(f'density of haloes {n}', d.halo_density(z, c), od * env.opaque('mean density', [z], (), pos=True))
        env.same(f'cosmology passed on {n}', seen[-1] is c, True)
    env.equal('default overdensity', D().halo_density(0.0, None), 200.0 * env.opaque('mean density', [0.0], (), pos=True))


H = HARNESSES = []


def add(fn, tier='quick', **cfg):
    H.append(dict(name=fn.__name__ + '-' + '-'.join(f'{k}={v}' for k, v in cfg.items()), fn=fn, cfg=cfg, tier=tier))


for r in ('cen', 'sat'):
    for hm in (None, 'fit') + MEAD:
        add(plumbing, role=r, hmcode=hm)
        add(plumbing, role=r, hmcode=hm, nz=3, arrays=True, first='dndlnm' if r == 'sat' else 'nfw_sat')
    for md in ('SOCritical', 'SOVirial'):
        add(plumbing, role=r, mdef=md)
    add(plumbing, role=r, mdef='SOVirial', hmcode='mead2020')
    add(plumbing, role=r, conc=('diemer19', 'ishiyama21'))
    add(plumbing, role=r, conc=('Bullock01', 'diemer19'), nz=1)
add(defaults)
add(virial_density)
for r in ('cen', 'sat'):
    for hm in (None, 'mead2020'):
        add(plumbing, role=r, hmcode=hm, nz=6, arrays=True)
