"""C14: inputs supplied by the caller are left as they are, and results do not depend on what was evaluated before."""
from symx.core import Unsupported
from symx.world import World
from .common import ENV_ASSUMPTIONS
from . import c08, c10, c13
from .c13 import quantities, read, compare, spectra, LOOK, MEAD, FB

ASSUMPTIONS = c13.ASSUMPTIONS
BOUNDS = ('two objects built from the same arrays and dictionaries; all public quantities read in alphabetical and in reverse order, then read again, then one object updated or combined; '
          'redshifts <=3, wavenumbers 2, masses 2, bins <=2; all values arbitrary reals')
OUTSIDE = 'evaluation orders other than alphabetical, reverse and spectra-only; arrays modified by the caller itself after the object was built'


def snap(v):
    """Independent copy of a value."""
    import numpy as np
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    if type(v).__name__ == 'PowerSpectrumResult':
        w = object.__new__(type(v))
        vars(w).update({k: snap(x) for k, x in vars(v).items()})
        return w
    return v


def unchanged(env, label, was, now):
    """The same keys, shapes and values."""
    import numpy as np
    from symx.core import Sym
    if isinstance(was, dict):
        env.same(f'{label}: entries', sorted(map(str, now)), sorted(map(str, was)))
        for k in was:
            if k in now:
                unchanged(env, f'{label}[{k}]', was[k], now[k])
    elif isinstance(was, list):
        env.same(f'{label}: length', len(now), len(was))
        for i, (a, b) in enumerate(zip(was, now)):
            unchanged(env, f'{label}[{i}]', a, b)
    elif isinstance(was, np.ndarray):
        if np.shape(now) != was.shape:
            env.same(f'{label}: shape', np.shape(now), was.shape)
        else:
            env.equal(label, now, was)
    elif isinstance(was, (Sym, float)):
        env.equal(label, now, was)
    elif was is None or isinstance(was, (str, bool, int)):
        env.same(label, now, was)


def shared(env, make, P, look, update=None):
    """Two objects over the very same inputs."""
    was = snap(P)
    a = make(P)
    names = look(a) if callable(look) else look
    first = snap(read(a, names))
    unchanged(env, 'input after evaluating one object', was, P)
    b = make(P)
    other = snap(read(b, names[::-1]))
    unchanged(env, 'input after evaluating two objects', was, P)
    compare(env, 'second object', {n: other[n] for n in names}, first)
    compare(env, 'first object read again', read(a, names), first)
    t = make(snap(was))
    compare(env, 'object over its own copies', read(t, names), first)
    if update:
        a.update(**update)
        read(a, names)
        unchanged(env, 'input after updating one object', was, P)
        compare(env, 'second object after updating the first', read(b, names), first)


def whole(env, start=(), reads='all', update=True):
    make, P, opt, have = spectra(env, start)
    up = {n: c13.value(env, n, 1) for n in c13.KNOWN if n in have and P.get(n) is not None}
    shared(env, lambda p: make({k: v for k, v in p.items()}), P, LOOK[reads], up if update else None)


def occupations(env, model, decorated=False, file=False):
    """Real occupation models over shared settings and halo-model arrays."""
    World(env, nz=1, nk=1, nm=1)
    hod = env.load('onepower.hod')
    nz, nm = 2, 2
    P = dict(mass=env.grid('m', nm, 1e11, 1e15), dndlnm=env.arr('dn', (nz, nm), 0.1, 2.0), halo_bias=env.arr('hb', (nz, nm), 0.1, 2.0), z_vec=env.np.array([0.15, 0.5]))
    if model == 'Cacciato':
        g = env.grid('o', 2, 8.0, 12.0)
        P['hod_settings'] = dict(observables_file=None, nz=2, nobs=3, observable_h_unit='1/h^2', obs_min=env.np.array([g[0]]), obs_max=env.np.array([g[1]]), zmin=env.np.array([0.05]), zmax=env.np.array([0.6]))
    else:
        P['hod_settings'] = c08.settings(env, 2, 2)
    if decorated:
        P.update(A_cen=env.real('A_cen', -1.0, 1.0), A_sat=env.real('A_sat', -1.0, 1.0))

    class C:
        h = env.real('h', 0.5, 0.9)
    shared(env, lambda p: getattr(hod, model)(cosmo=C, **p), P, lambda s: [n for n in quantities(s) if n not in ('interpolated',)])


def alignments(env, start=(), profile=False):
    box = {}

    def take(e, make, P, steps, look=None, **k):
        box.update(make=make, P=P, look=look, steps=steps)
    keep, c13.follow = c13.follow, take
    try:
        c13.alignment(env, start=start, profile=profile)
    finally:
        c13.follow = keep
    up = {}
    for st in box['steps']:
        for d in st if isinstance(st, list) else [st]:
            up.update(d)
    up = {k: v for k, v in up.items() if k in c13.IA_RANGE}
    shared(env, box['make'], box['P'], box['look'], up)


def emulated(env, start=()):
    box = {}

    def take(e, make, P, steps, look=None, **k):
        box.update(make=make, P=P, look=look)
    keep, c13.follow = c13.follow, take
    try:
        c13.nonlinear_bias(env, start=start)
    finally:
        c13.follow = keep
    shared(env, box['make'], box['P'], box['look'], {n: c13.bnl_value(env, n, 1) for n in ('h0', 'omega_b', 'z_vec')})


def combined(env, model=False):
    """Combining spectra leaves the given parameters, fractions, lists and model as they are."""
    Toy = c13.toy_spectra(env)
    import numpy
    up = env.load('onepower.add').UpsampledSpectra
    P = {n: c13.up_value(env, n, 0) for n in ('z', 'k', 'fraction_z', 'fraction', '_model_1_params', '_model_2_params', 'extrapolate_option')}
    P['_model_1_params']['hod_params'] = dict(a=env.real('hp', 0.5, 2.0))
    P['_model_2_params']['hod_params'] = dict(a=env.real('hp2', 0.5, 2.0), b=env.real('hp3', 0.5, 2.0))
    P = {k.lstrip('_'): v for k, v in P.items()}
    m = None
    if model:
        m = Toy(z_vec=numpy.array([0.1, 0.8]), k_vec=numpy.array([0.05, 1.5]), amplitude=env.real('am', 0.1, 5.0), hod_params=dict(a=env.real('hp4', 0.5, 2.0)))
        P['model'] = m
    was = snap({k: v for k, v in P.items() if k != 'model'})
    modes, parts = list(c13.MODES), list(c13.PARTS)
    names = [f'power_spectrum_{q}' for q in modes]
    before = snap(read(m, names)) if model else {}
    par = snap(dict(m.parameter_values)) if model else None
    a = up(**P)
    a.results(modes, parts)
    first = snap(read(a, names))
    env.same('list of spectra', modes, list(c13.MODES))
    env.same('list of components', parts, list(c13.PARTS))
    unchanged(env, 'input after combining', was, {k: v for k, v in P.items() if k != 'model'})
    b = up(**P)
    b.results(modes[::-1], parts)
    compare(env, 'second combination', {n: read(b, names)[n] for n in names}, first)
    unchanged(env, 'input after combining twice', was, {k: v for k, v in P.items() if k != 'model'})
    a.update(z=c13.up_value(env, 'z', 1), fraction=c13.up_value(env, 'fraction', 1), _model_2_params=c13.up_value(env, '_model_2_params', 1))
    a.results(modes, parts)
    unchanged(env, 'input after updating the combination', was, {k: v for k, v in P.items() if k != 'model'})
    compare(env, 'second combination after updating the first', read(b, names), first)
    if model:
        compare(env, 'given model', read(m, names), before)
        unchanged(env, 'parameters of the given model', par, dict(m.parameter_values))


def calls(env, truncate=True, method='fftlog'):
    """Functions of arrays leave their arguments as they are, and say the same when called again."""
    from . import c16
    W = env.arr('wkm', (2, 2, 100 if method == 'fftlog' else 3), 1e-3, 5.0)

    def base(C):
        class U(C):
            wkm_f_ell = property(lambda s: env.hit('wkm_f_ell', W * 1.0))
        env.replacing(C, 'wkm_f_ell')
        return U
    S, d = c16.make(env, 2, 2, base, method=method, nk=3, nmass=2)
    was = snap(d)
    s = S(**d)
    r, rs, rv, a = env.grid('r', 2, 0.01, 3.0), env.real('rs', 0.01, 1.0), env.real('rv', 0.1, 3.0), env.real('a', 0.001, 0.02)
    lum, pdf = env.grid('lum', 3, 1e9, 1e11), env.arr('pdf', (3,), 0.1, 1.0)
    k = env.np.array([0.011, 0.35])
    L0 = env.real('l0', 1e9, 1e11)
    todo = dict(profile=(s.gamma_r_nfw_profile, (r, rs, rv, a, -2.0), dict(truncate=truncate)), mean=(s.mean_l_l0_to_beta, (lum, pdf, L0, 0.7), {}),
                broken=(s.broken_powerlaw, (lum, pdf, 2.0, L0, 0.7, 0.3), {}), upsampled=(s.upsampled_wkm, (k, d['mass_in']), {}))
    for n, (f, args, kw) in todo.items():
        before = snap(list(args))
        v = snap(f(*args, **kw))
        unchanged(env, f'{n}: arguments', before, list(args))
        compare(env, f'{n}: again', {n: f(*args, **kw)}, {n: v})
    unchanged(env, 'input', was, d)


H = HARNESSES = []


def add(fn, name, tier='quick', **cfg):
    H.append(dict(name=name, fn=fn, cfg=cfg, tier=tier, maxpaths=40, samples=1))


add(whole, 'spectra', start=())
for st in ((('nonlinear_mode', 'bnl'),), (('nonlinear_mode', 'bnl'), ('beta_nl', 'none')), (('nonlinear_mode', 'fortuna'),), (('nonlinear_mode', 'hmcode'), ('hmcode_ingredients', MEAD)),
           (('hmcode_ingredients', FB),), (('hmcode_ingredients', 'fit'),), (('response', True),), (('response', True), ('nonlinear_mode', 'bnl')), (('pointmass', True),), (('dewiggle', True),),
           (('matter_power_lin', 'none'),), (('compute_observable', False),), (('response', True), ('nonlinear_mode', 'fortuna')), (('response', True), ('matter_power_nl', 'none'))):
    add(whole, 'spectra:' + '+'.join(f'{k}={v}' for k, v in st), start=st, reads='spectra')
for st in ((('nonlinear_mode', 'bnl'),), (('hmcode_ingredients', FB),), (('response', True),)):
    add(whole, 'spectra-all:' + '+'.join(f'{k}={v}' for k, v in st), 'thorough', start=st)
for M in ('Cacciato', 'Simple', 'Zehavi', 'Zheng', 'Zhai'):
    add(occupations, f'occupation:{M}', model=M)
    if M in ('Cacciato', 'Zheng', 'Zhai'):
        add(occupations, f'occupation-decorated:{M}', 'thorough' if M == 'Zheng' else 'quick', model=M, decorated=True)
S_, C_ = 'satellite_ia_depends_on', 'central_ia_depends_on'
for st in ((), ((C_, 'constant'), (S_, 'constant')), ((C_, 'halo_mass'), ('beta_two', 'none'), (S_, 'halo_mass'))):
    add(alignments, 'amplitudes:' + '+'.join(f'{k}={v}' for k, v in st), start=st)
for st in ((), (('method', 'fftlog'),), (('truncate', True),)):
    add(alignments, 'profile:' + '+'.join(f'{k}={v}' for k, v in st), start=st, profile=True)
for st in ((), (('A_s', 'none'),), (('z_dep', True),)):
    add(emulated, 'bias:' + '+'.join(f'{k}={v}' for k, v in st), start=st)
add(combined, 'combined')
add(combined, 'combined-model', model=True)
for t in (True, False):
    add(calls, f'calls-truncate={t}', truncate=t, method='fftlog' if t else 'hankel')
