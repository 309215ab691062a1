"""C22: CosmoSIS outputs land in their own sections and calls are independent."""
from .iface import Run, SPECTRA
from .cosmosis import COSMO
from .c21 import ASSUMPTIONS

BOUNDS = 'every sampled value and every real-valued option an arbitrary real in its range (consecutive calls in disjoint ranges); 2 masses, five layouts of model (up to 6 redshifts, 7 wavenumbers) and output grids (up to 5 x 6); up to 4 bins and 5 alignment populations; up to 3 consecutive calls; the listed combinations of requested spectra, modes and options'
OUTSIDE = 'the matter spectrum together with the fortuna mode (its output section already holds the input); the weight of the second alignment population (the module reads no fractions); extra sections the module may write'
SECTION = dict(mm='matter_power_nl', gg='galaxy_power', gm='matter_galaxy_power', gi='galaxy_intrinsic_power', ii='intrinsic_power', mi='matter_intrinsic_power')
BIAS = dict(gg=('galaxy_linear_bias', 'bg_linear'), gm=('galaxy_matter_linear_bias', 'bgm_linear'))


def upsample(env, P, z, k, zo, ko):
    return env.lin_interp(env.np.log10(k), env.lin_interp(z, P, zo, axis=0), env.np.log10(ko), axis=1)


def matter(env, r, b, E):
    z, k, m = r.z_vec(), r.k_vec(b), E.mass
    out = {}
    for sec, name, v in (('concentration_m', 'c', E.conc_cen), ('concentration_sat', 'c', E.conc_sat), ('nfw_scale_radius_m', 'rs', E.r_s_cen), ('nfw_scale_radius_sat', 'rs', E.r_s_sat), ('hmf', 'dndlnmh', E.dndlnm), ('hmf', 'nu', E.nu), ('halobias', 'b_hb', E.halo_bias)):
        out.update({(sec, 'z'): z, (sec, 'm_h'): m, (sec, name): v})
    s = 'fourier_nfw_profile'
    out.update({('virial_radius', 'm_h'): m, ('virial_radius', 'rvir_m'): E.rvir_cen[0], ('virial_radius', 'rvir_sat'): E.rvir_sat[0], (s, 'z'): z, (s, 'm_h'): m, (s, 'k_h'): k, (s, 'ukm'): E.u_dm, (s, 'uksat'): E.u_sat,
                ('density', 'mean_density0'): E.mean_density0, ('density', 'rho_crit'): E.mean_density0 / b[COSMO, 'omega_m'], ('density', 'mean_density_z'): E.mean_density_z, ('density', 'rho_halo'): E.rho_halo, ('density', 'z'): z,
                ('hmf', 'neff'): E.neff, ('hmf', 'sigma8_z'): E.sigma8_z, (COSMO, 'fnu'): E.fnu})
    return out


def suffixes(n):
    return [f'_{i + 1}' for i in range(n)] if n != 1 else ['']


def occupation(env, r, sec, E):
    n = E.hod.hod_cen.shape[0]
    out = {(sec, 'nbins'): n}
    for i, s in enumerate(suffixes(n)):
        h = E.hod
        out.update({(sec, 'z' + s): r.z_vec(), (sec, 'mass' + s): E.mass, (sec, 'N_sat' + s): h.hod_sat[i], (sec, 'N_cen' + s): h.hod_cen[i], (sec, 'N_tot' + s): h.hod[i], (sec, 'f_star' + s): E.fstar[i],
                    (sec, 'number_density_cen' + s): h.number_density_cen[i], (sec, 'number_density_sat' + s): h.number_density_sat[i], (sec, 'number_density_tot' + s): h.number_density[i],
                    (sec, 'central_fraction' + s): h.f_c[i], (sec, 'satellite_fraction' + s): h.f_s[i], (sec, 'average_halo_mass' + s): E.mass_avg[i]})
    return out


def observables(env, r, sec, E):
    out = {}
    for i in range(E.obs_func.shape[0]):
        s = f'_{i + 1}'
        vals = dict(obs_val=E.obs_func_obs[i, 0], obs_func=E.obs_func[i], obs_func_c=E.obs_func_cen[i], obs_func_s=E.obs_func_sat[i])
        if r.observable == 'single':
            vals.update({n: vals[n][0] for n in ('obs_func', 'obs_func_c', 'obs_func_s')})
        else:
            vals['z_bin'] = E.obs_func_z[i]
        out.update({(sec, n + s): v for n, v in vals.items()})
    return out


def spectrum(env, r, b, E, w):
    z, k, zo, ko = r.z_vec(), r.k_vec(b), b['matter_power_lin', 'z'], b['matter_power_lin', 'k_h']
    p = getattr(E, f'power_spectrum_{w}')
    out = {}
    n = 1 if w == 'mm' else p.pk_tot.shape[0]
    for i, s in enumerate(suffixes(n)):
        sec = SECTION[w] + s
        out.update({(sec, 'z'): zo, (sec, 'k_h'): ko})
        for c, name in (('1h', 'p_k_1h'), ('2h', 'p_k_2h'), ('tot', 'p_k')):
            out[sec, name] = upsample(env, getattr(p, f'pk_{c}')[i], z, k, zo, ko)
        if w in BIAS:
            sec, name = BIAS[w][0] + s, BIAS[w][1]
            out.update({(sec, 'z'): z, (sec, 'k_h'): k, (sec, name): p.galaxy_linear_bias[i]})
    return out


def outputs(env, calls=1, **cfg):
    r = Run(env, **cfg)
    config = r.setup()
    for g in range(calls):
        b, given = r.values(g), r.values(g)
        env.same('return code', r.m.execute(b, config), 0)
    E = r.Toy(**r.expected(given))
    want = matter(env, r, given, E)
    hod = r.o.get('hod_section_name', 'hod')
    if r.galaxy:
        want.update(occupation(env, r, hod, E))
        if r.observable:
            want.update(observables(env, r, r.o.get('observable_section_name', 'stellar_mass_function'), E))
    for w in r.want:
        if w in ('mm', 'gg', 'gm') and not (w == 'mm' and r.response):
            want.update(spectrum(env, r, given, E, w))
    if r.align:
        A = r.Toy(**r.expected(given, 0))
        s = 'ia_1' if r.split else 'ia'
        want.update(occupation(env, r, r.o.get(f'hod_section_name_{s}', s), A))
        for w in r.want:
            if w in ('gi', 'ii', 'mi'):
                want.update(spectrum(env, r, given, A, w))
    for (sec, name), v in want.items():
        label = f'{sec}/{name}'
        if not b.has_value(sec, name):
            env.fails(label, 'not written')
            continue
        got = b[sec, name]
        if isinstance(v, int):
            env.same(label, got, v)
            continue
        if tuple(getattr(got, 'shape', ())) != tuple(v.shape):
            env.fails(label, f'shape {getattr(got, "shape", ())} instead of {v.shape}')
            continue
        env.equal(label, got, v)
    for sec, name, x, y in b.axes:
        env.equal(f'{sec}/{name}: shared axis', y, x)
    for w in SPECTRA:
        if w in r.want and not (w == 'mm' and r.response):
            continue
        for s in ('', '_1', '_2'):
            for sec in [SECTION[w]] + ([BIAS[w][0]] if w in BIAS else []):
                if (sec + s) not in [k[0] for k in given.d]:
                    env.same(f'{sec + s} not requested', b.has_section(sec + s), False)
    for k, v in given.d.items():
        if k[0] not in [x[0].lower() for x in want]:
            now = b.d.get(k)
            if now is None:
                env.fails(f'input {k}', 'removed')
            else:
                env.equal(f'input {k[0]}/{k[1]} untouched', now, v)


H = HARNESSES = []


def add(name, /, tier='quick', maxpaths=60, weight=1, samples=2, **cfg):
    H.append(dict(name=name, fn=outputs, cfg=cfg, tier=tier, maxpaths=maxpaths, weight=weight, samples=samples))


ALL = ('mm', 'gg', 'gm', 'gi', 'ii', 'mi')
add('matter', want=('mm',))
add('matter, defaults', want=('mm',), defaults=True, trunc='default')
add('matter, hmcode', want=('mm',), mode='hmcode', hmcode='mead2020_feedback')
add('clustering, two bins', want=('gg',))
add('lensing, two bins', want=('gm',))
add('clustering and lensing, one bin', want=('gg', 'gm'), nb=1)
add('clustering, table', want=('gg', 'gm'), file=True)
add('matter and lensing, fit', want=('mm', 'gm'), hmcode='fit')
add('response', want=('mm', 'gg', 'gm'), response=True)
add('response without matter', want=('gm',), response=True)
add('observables, bins', want=('gg',), observable='bins')
add('observables, single', want=('gg',), observable='single')
add('observables, table', want=('gm',), observable='file')
add('observables, defaults', want=('gg',), observable='bins', defaults=True, trunc='default')
for w in ('gi', 'ii', 'mi'):
    add(f'alignments {w}', want=(w,))
add('alignments, two bins', want=('gi', 'ii', 'mi'), file_ia=False, nbia=2)
add('alignments, defaults', want=('gi', 'ii', 'mi'), defaults=True, trunc='default', suffix=None)
add('alignments, fortuna', want=('gg', 'gi'), mode='fortuna')
add('alignments, split', want=('gi', 'ii', 'mi'), split=True)
add('alignments, split, bins', want=('gi', 'ii', 'mi'), split=True, file_ia=False, nbia=2)
add('matter and alignments', want=('mm', 'ii'))
add('everything', want=ALL, observable='bins')
add('everything, different bins', want=ALL, nb=1, file_ia=False, nbia=2)
add('everything, four and three bins', want=ALL, nb=4, file_ia=False, nbia=3, observable='bins')
add('everything, three and five bins, split', want=ALL, nb=3, file_ia=False, nbia=5, split=True)
add('second call, three bins', calls=2, want=ALL, hod='Zheng', poisson='power_law', nb=3, file_ia=False, nbia=3)
for G in ('fine', 'coarse', 'alike', 'alike in size'):
    add(f'grids, {G}', want=('mm', 'gg', 'gm'), grid=G)
    add(f'grids, {G}, alignments', want=('gi', 'ii', 'mi'), grid=G, file_ia=False, nbia=2)
    if G != 'alike':
        add(f'grids, {G}, second call', calls=2, want=('mm', 'gg', 'ii'), nb=1, grid=G)
add('second call, matter', calls=2, want=('mm',))
add('second call, everything', calls=2, want=ALL, observable='bins')
add('second call, bins of alignments', calls=2, want=ALL, file_ia=False, nbia=2)
add('second call, table then bins', calls=2, want=ALL, file=True, file_ia=False)
add('second call, split', calls=2, want=ALL, split=True)
add('second call, response', calls=2, want=('mm', 'gg', 'gm'), response=True)
add('second call, fortuna', calls=2, want=('gg', 'gi', 'ii'), mode='fortuna')
add('second call, per-bin occupation', calls=2, want=('gg', 'gm'), hod='Zheng', poisson='power_law')
add('third call, everything', calls=3, want=ALL, observable='single', tier='thorough')
add('third call, split', calls=3, want=ALL, split=True, file_ia=False, nbia=2, tier='thorough')
