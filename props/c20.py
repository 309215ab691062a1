"""C20: invalid configurations are rejected, valid ones accepted."""
from symx.world import World
from .common import Case, ENV_ASSUMPTIONS
from . import cosmosis

ASSUMPTIONS = ENV_ASSUMPTIONS[:1] + ['an option value is any string at all, or None; the code under test may only compare it with constants (other string operations leave the case undecided)']
BOUNDS = 'every string as option value; multipole order any real in [-2, 40]; arrays of up to 3 redshifts and 4 wavenumbers with every wrong layout listed in the harness; wavenumber spacings uneven by 2 per cent or more'
OUTSIDE = 'spacings uneven by less than 2 per cent (accepted or not); whether a rejected update leaves the object in its previous state; options validated by hmf and halomod themselves'
PK, HMI, IA = 'src/onepower/pk.py', 'src/onepower/hmi.py', 'src/onepower/ia.py'
MODES = ['bnl', 'hmcode', 'fortuna']
HMC = ['mead2020_feedback', 'mead2020', 'fit']


def isin(v, lst):
    return any(v is x or (x is not None and v == x) for x in lst)


def verdict(env, label, f, valid):
    ok = env.accepts(f)
    env.same(label, 'accepted' if ok else 'rejected', 'accepted' if valid() else 'rejected')


def start(env, mode=None, hmcode=None, **k):
    return Case(env, mode=mode, hmcode=hmcode, nz=2, nk=2, nm=2, **k)


def modes(env, how, ingredients=None, given=True, frm=None):
    """The non-linear mode is one of the documented ones (and HMCode needs suitable ingredients)."""
    v = env.option('nonlinear_mode', MODES, [PK, HMI]) if given else None
    c = start(env, mode=frm, hmcode=ingredients)

    def valid():
        return isin(v, MODES + [None]) and not (isin(v, ['hmcode']) and (ingredients is None or ingredients == 'fit'))
    run(env, c, how, dict(nonlinear_mode=v), valid)


def run(env, c, how, kw, valid, label='configuration'):
    if how == 'new':
        verdict(env, label, lambda: c.pk_mod.Spectra(**dict(c.kw, **kw)), valid)
    elif how == 'update':
        verdict(env, label, lambda: c.s.update(**kw), valid)
    else:                                     # after the spectra have been used
        c.s.power_spectrum_lin
        verdict(env, label, lambda: c.s.update(**kw), valid)


def ingredients(env, how, mode=None, given=True, frm=None):
    v = env.option('hmcode_ingredients', HMC, [PK, HMI]) if given else None
    c = start(env, mode=mode, hmcode=frm)

    def valid():
        return isin(v, HMC + [None]) and not (mode == 'hmcode' and isin(v, [None, 'fit']))
    run(env, c, how, dict(hmcode_ingredients=v), valid)


def both(env, how, frm=(None, None)):
    m = env.option('nonlinear_mode', MODES, [PK, HMI])
    h = env.option('hmcode_ingredients', HMC, [PK, HMI])
    c = start(env, mode=frm[0], hmcode=frm[1])

    def valid():
        return isin(m, MODES) and isin(h, HMC) and not (isin(m, ['hmcode']) and isin(h, ['fit']))
    run(env, c, how, dict(nonlinear_mode=m, hmcode_ingredients=h), valid)


def sequence(env):
    """Switching one option at a time: the combination is judged at every step."""
    c = start(env, hmcode='mead2020', mode='hmcode')
    h = env.option('hmcode_ingredients', HMC, [PK, HMI])
    run(env, c, 'update', dict(hmcode_ingredients=h), lambda: isin(h, ['mead2020', 'mead2020_feedback']), 'ingredients under HMCode')
    c2 = c.pk_mod.Spectra(**c.kw)
    verdict(env, 'mode back to standard', lambda: c2.update(nonlinear_mode=None), lambda: True)
    verdict(env, 'ingredients removed under the standard mode', lambda: c2.update(hmcode_ingredients=None), lambda: True)
    verdict(env, 'HMCode without ingredients', lambda: c2.update(nonlinear_mode='hmcode'), lambda: False)


DEP = ['constant', 'luminosity', 'halo_mass']


def align(env, name, options, how):
    """Alignment options of the satellite alignment model."""
    World(env, nz=2, nk=2, nm=2)
    ia = env.load('onepower.ia')
    z = env.np.array([0.1, 0.4])
    v = env.option(name, options, [IA])
    kw = dict(z_vec=z, mass_in=env.grid('m', 3, 1e12, 1e15))
    if how == 'new':
        f = lambda: ia.SatelliteAlignment(**dict(kw, **{name: v}))
    else:
        s = ia.SatelliteAlignment(**kw)
        f = lambda: s.update(**{name: v})
    verdict(env, name, f, lambda: isin(v, options))


def spectra_align(env, name):
    """An unsupported alignment dependence never yields alignment spectra."""
    c = Case(env, nz=1, nk=2, nm=2, hod=True, ia=True, mode='fortuna', nl=True)
    for what in ('nonsense', None, ''):
        for attr in ('power_spectrum_ii', 'power_spectrum_gi', 'power_spectrum_mi'):
            def f():
                s = c.pk_mod.Spectra(**dict(c.kw, align_params=dict(c.kw['align_params'], **{name: what})))
                return getattr(s, attr).pk_tot
            env.raises(f'{attr} with {name}={what!r}', f)


def order(env, how):
    World(env, nz=2, nk=2, nm=2)
    ia = env.load('onepower.ia')
    v = env.real('ell_max', -2.0, 40.0, special=[11.0, 12.0, 10.0])
    kw = dict(z_vec=env.np.array([0.1, 0.4]), mass_in=env.grid('m', 3, 1e12, 1e15))
    if how == 'new':
        f = lambda: ia.SatelliteAlignment(ell_max=v, **kw)
    else:
        s = ia.SatelliteAlignment(**kw)
        f = lambda: s.update(ell_max=v)
    verdict(env, 'multipole order', f, lambda: v <= 11.0)


def shapes(env, which, mode=None, hmcode=None, dewiggle=False, response=False, how='new', nz=2, nk=3):
    """Input power whose layout is not (redshift, wavenumber) gives no spectrum."""
    ks = env.np.array([0.02, 0.1, 0.5, 2.5][:nk])
    c = Case(env, mode=mode, hmcode=hmcode, nz=nz, nk=nk, nm=2, nl=which == 'nl', world=dict(k=ks), extra=dict(dewiggle=dewiggle, response=response))
    name = 'matter_power_lin' if which == 'lin' else 'matter_power_nl'
    for shape in [(nz, nk + 1), (nz + 1, nk), (nk, nz), (1, nk), (nz, 1), (nk,), (nz,), (nz * nk,), (1, nz, nk), (nz, nk, 1), (1, 1), ()]:
        if shape == (nz, nk):
            continue
        P = env.arr(f'P{shape}', shape, 0.5, 50.0) if shape else env.np.array(env.real('P0', 0.5, 50.0))

        def f():
            if how == 'new':
                s = c.pk_mod.Spectra(**dict(c.kw, **{name: P}))
            else:
                s = c.pk_mod.Spectra(**c.kw)
                s.power_spectrum_lin, s.power_spectrum_mm
                s.update(**{name: P})
            return s.power_spectrum_lin.pk_tot if which == 'lin' else s.power_spectrum_mm.pk_tot
        env.raises(f'power of shape {shape}', f)
    good = env.arr('Pgood', (nz, nk), 0.5, 50.0)
    verdict(env, 'power of the right shape', lambda: c.pk_mod.Spectra(**dict(c.kw, **{name: good})).power_spectrum_lin.pk_tot, lambda: True)


def spacing(env, side, at, how='new', mode=None, nk=4):
    """Dewiggling needs evenly spaced logarithmic wavenumbers."""
    np = env.np
    d = env.real('d', 0.2, 2.0)
    e = env.real('e', 0.02, 0.7 if at == 'mean' else 3.0) if side > 0 else env.real('e', -0.7, -0.02)
    l0 = env.real('l0', -5.0, -3.0)
    if at == 'mean':                          # uneven, yet even on average
        steps = [d, d * (1.0 + e), d * (1.0 - e)]
    else:
        steps = [d * (1.0 + e) if i == at else d for i in range(nk - 1)]
    ln = [l0]
    for s in steps:
        ln.append(ln[-1] + s)
    k = np.exp(np.array(ln))
    c = Case(env, mode=mode, hmcode='mead2020' if mode else None, nz=1, nk=nk, nm=2, world=dict(k=k), extra=dict(dewiggle=not mode and how == 'new'))
    if how == 'new':
        env.raises('unevenly spaced wavenumbers', lambda: c.s.power_spectrum_lin.pk_tot)
    else:
        env.equal('no dewiggling', c.s.power_spectrum_lin.pk_tot[0], c.par['pk'])
        env.raises('dewiggling switched on', lambda: (c.s.update(dewiggle=True), c.s.power_spectrum_lin.pk_tot))


def pivots(env, who, dep, how):
    """Luminosity and mass dependences need their pivot, luminosity needs galaxies, and mass allows no second slope."""
    World(env, nz=2, nk=2, nm=2)
    ia = env.load('onepower.ia')
    z = env.np.array([0.1, 0.4])
    a, b = env.real('amp', 0.5, 5.0), env.real('slope', -1.0, 1.5)
    side = 'cen' if who == 'central' else 'sat'
    attr = 'alignment_gi' if who == 'central' else 'gamma_1h_amp'
    other = 'sat' if side == 'cen' else 'cen'
    # the other galaxy type's pivot does not help, nor does the pivot of the other dependence
    kw = {'z_vec': z, f'{who}_ia_depends_on': dep, 'gamma_2h_amplitude': a, 'gamma_1h_amplitude': a, f'beta_{side}': b,
          f'mpivot_{other}': 13.0, f'lpivot_{other}': 10.0}
    kw[f'mpivot_{side}'] = 13.0 if dep == 'luminosity' else None
    kw[f'lpivot_{side}'] = 10.0 if dep != 'luminosity' else None

    def make(**extra):
        if how == 'new':
            return ia.AlignmentAmplitudes(**dict(kw, **extra))
        s = ia.AlignmentAmplitudes(z_vec=z, gamma_2h_amplitude=a, gamma_1h_amplitude=a)
        getattr(s, attr)
        s.update(**{k: v for k, v in dict(kw, **extra).items() if k != 'z_vec'})
        return s
    env.raises('no pivot', lambda: getattr(make(), attr))
    piv = 'lpivot_' if dep == 'luminosity' else 'mpivot_'
    if dep == 'luminosity':
        env.raises('no galaxies', lambda: getattr(make(**{piv + side: 10.0}), attr))
    else:
        env.equal('with a pivot', getattr(make(**{piv + side: 13.0}), attr), env.np.array([a, a]))
        if who == 'central':
            env.raises('second slope', lambda: getattr(make(**{piv + side: 13.0, 'beta_two': b}), attr))


def amplitude(env):
    from .c17 import module
    b, made = module(env, 0.3)

    def f(**k):
        s = b.NonLinearBias(mass=env.grid('m', 2, 1e12, 1e14), z_vec=env.np.array([0.1]), k_vec=env.np.array([0.01, 0.1]), **k)
        return s.bnl
    env.raises('neither amplitude nor sigma8', lambda: f(A_s=None, sigma_8=None))
    env.raises('neither amplitude nor sigma8, per redshift', lambda: f(A_s=None, sigma_8=None, z_dep=True))


def unknown_names(env):
    """Model and parameter names that do not exist are errors."""
    c = Case(env, nz=1, nk=2, nm=2, hod=True, poisson='constant')
    S = c.pk_mod.Spectra
    for n in ('hod_model', 'poisson_model', 'halo_profile_model_dm', 'halo_profile_model_sat', 'hmf_model', 'bias_model', 'halo_concentration_model_dm', 'halo_concentration_model_sat', 'mdef_model', 'transfer_model', 'growth_model'):
        if n in ('hod_model', 'poisson_model'):
            env.raises(f'{n}=NoSuchModel', lambda: S(**dict(c.kw, **{n: 'NoSuchModel'})))
            env.raises(f'update {n}=NoSuchModel', lambda: c.s.update(**{n: 'NoSuchModel'}))
        env.raises(f'update no_{n}', lambda: c.s.update(**{'no_' + n: 1.0}))
    env.raises('unknown parameter', lambda: S(**dict(c.kw, no_such_parameter=1.0)))
    x = env.real('x', 0.1, 2.0)
    env.raises('unknown occupation parameter', lambda: S(**dict(c.kw, hod_model='Cacciato', hod_params=dict(no_such=x), hod_settings=HODSET(env))).hod.hod_cen)
    env.raises('unknown Poisson parameter', lambda: S(**dict(c.kw, poisson_params=dict(no_such=x))).power_spectrum_gg.pk_tot)
    env.raises('unknown alignment parameter', lambda: S(**dict(c.kw, align_params=dict(no_such=x))).alignment_class.alignment_gi)


def HODSET(env):
    return dict(obs_min=env.np.array([9.0]), obs_max=env.np.array([10.0]), zmin=env.np.array([0.1]), zmax=env.np.array([0.3]), nobs=3, nz=2)


def pk_to_real(env, module):
    cosmosis.stand_in(env)
    env.env_modules['pyfftlog'] = dict(fhti=lambda *a, **k: (1.0, None), fht=lambda *a, **k: None, fhtq=lambda *a, **k: None)
    env.env_modules['hankel'] = dict(HankelTransform=lambda *a, **k: None)
    env.env_modules['matplotlib'] = {}
    env.env_modules['matplotlib.pyplot'] = {}
    m = env.load(f'cosmosis_modules.pk_to_real.{module}')
    v = env.option('corr_type', ['wp', 'ds'], [f'cosmosis_modules/pk_to_real/{module}.py'])
    verdict(env, 'correlation type', lambda: m.setup(cosmosis.options(corr_type=v, sample='s', n_transform=8)), lambda: isin(v, ['wp', 'ds']))


def units(env):
    cosmosis.stand_in(env)
    m = env.load('cosmosis_modules.convert_theta.convert_theta')
    v = env.option('output_units', ['rad', 'deg', 'arcmin', 'arcsec'], ['cosmosis_modules/convert_theta/convert_theta.py'])
    verdict(env, 'output units', lambda: m.setup(cosmosis.options(output_units=v, section_name='s')), lambda: isin(v, ['rad', 'deg', 'arcmin', 'arcsec']))


H = HARNESSES = []


def add(name, fn, /, tier='quick', maxpaths=400, weight=1, **cfg):
    H.append(dict(name=name, fn=fn, cfg=cfg, tier=tier, maxpaths=maxpaths, weight=weight))


for how in ('new', 'update', 'used'):
    for ing in (None, 'fit', 'mead2020', 'mead2020_feedback'):
        add(f'mode {how} ingredients={ing}', modes, how=how, ingredients=ing)
        add(f'mode none {how} ingredients={ing}', modes, how=how, ingredients=ing, given=False)
    for m in (None, 'bnl', 'fortuna'):
        add(f'ingredients {how} mode={m}', ingredients, how=how, mode=m)
        add(f'ingredients none {how} mode={m}', ingredients, how=how, mode=m, given=False, frm='mead2020')
    if how != 'used':
        add(f'ingredients {how} mode=hmcode', ingredients, how=how, mode='hmcode', frm='mead2020')
        add(f'ingredients none {how} mode=hmcode', ingredients, how=how, mode='hmcode', frm='mead2020', given=False)
    add(f'mode and ingredients {how}', both, how=how)
    add(f'mode and ingredients {how} from fortuna', both, how=how, frm=('fortuna', 'fit'))
add('one option at a time', sequence)
for how in ('new', 'update'):
    for n, o in (('central_ia_depends_on', DEP), ('satellite_ia_depends_on', DEP), ('method', ['hankel', 'fftlog'])):
        add(f'{n} {how}', align, name=n, options=o, how=how)
    add(f'multipole order {how}', order, how=how)
    for who in ('central', 'satellite'):
        for dep in ('luminosity', 'halo_mass'):
            add(f'{who} {dep} pivot {how}', pivots, who=who, dep=dep, how=how)
for n in ('central_ia_depends_on', 'satellite_ia_depends_on'):
    add(f'alignment spectra {n}', spectra_align, name=n)
for how in ('new', 'update'):
    add(f'linear power layout {how}', shapes, which='lin', how=how)
    add(f'linear power layout dewiggled {how}', shapes, which='lin', how=how, dewiggle=True)
    add(f'linear power layout fortuna {how}', shapes, which='lin', how=how, mode='fortuna', tier='thorough')
    add(f'linear power layout hmcode {how}', shapes, which='lin', how=how, mode='hmcode', hmcode='mead2020')
    add(f'non-linear power layout response {how}', shapes, which='nl', how=how, response=True)
    add(f'linear power layout 3x2 {how}', shapes, which='lin', how=how, nz=3, nk=2, tier='thorough')
    add(f'linear power layout 1x3 {how}', shapes, which='lin', how=how, nz=1, nk=3, tier='thorough')
for side in (1, -1):
    for at in (0, 1, 2, 'mean'):
        for how, mode in (('new', None), ('update', None), ('new', 'hmcode')):
            add(f'uneven spacing {side} step {at} {how} {mode}', spacing, side=side, at=at, how=how, mode=mode, tier='quick' if (at == 2 or (side, how) == (1, 'new')) else 'thorough')
add('emulator amplitude', amplitude)
add('unknown names', unknown_names)
for m in ('pk_to_real', 'pk_to_real_ogata'):
    add(f'correlation type {m}', pk_to_real, module=m)
add('angle units', units)
