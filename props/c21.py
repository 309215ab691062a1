"""C21: CosmoSIS options and values reach the model under the right names."""
from .iface import Run
from .common import ENV_ASSUMPTIONS

ASSUMPTIONS = ['CosmoSIS blocks are a stand-in with the documented typed accessors (absent values and wrong types raise a ValueError)',
               'the halo model is a stand-in with the real parameters and update machinery whose quantities are arbitrary functions of all its parameters; the non-linear bias emulator is a stand-in', ENV_ASSUMPTIONS[2]]
BOUNDS = 'every sampled value and every real-valued option an arbitrary real in its range; five layouts of model (up to 6 redshifts, 7 wavenumbers) and input grids (up to 5 x 6) with arbitrary power; up to 4 bins and 5 alignment populations; up to 3 consecutive calls; the listed combinations of requested spectra, modes and options'
OUTSIDE = 'luminosity-dependent alignments (the module has no luminosity inputs); occupation models without a parameter list in the module; per-bin occupation parameters when only alignments are requested'


def reach(env, calls=1, **cfg):
    """Parameters under which every requested spectrum is evaluated, for the last of several calls."""
    r = Run(env, **cfg)
    config = r.setup()
    for g in range(calls):
        b = r.values(g)
        del r.log[:]
        given = r.values(g)
        env.same('return code', r.m.execute(b, config), 0)
        b = given
    label = 'parameters'
    gal = r.snapshots('P_mm', 'P_gg', 'P_gm', 'dndlnm')
    if not gal:
        env.fails(label, 'no spectrum was evaluated')
    for n, p in gal:
        r.same_params(n, p, r.expected(b))
    if r.align:
        ia = r.snapshots('P_ii', 'P_gi', 'P_mi')
        if not ia:
            env.fails(label, 'no alignment spectrum was evaluated')
        first = True
        pops = 0
        for n, p in ia:
            pop = 0
            if r.split and p['hod_settings'].get('nobs') == 60:
                pop, pops = 1, pops + 1
            r.same_params(f'{n} population {pop}', p, r.expected(b, pop))
            first = False
        if r.split and not pops:
            env.fails(label, 'the second population was not evaluated')


def bnl(env, calls=3):
    """The emulated bias is for the model's masses, redshifts, wavenumbers and the current cosmology, renewed every update_bnl calls."""
    r = Run(env, mode='bnl', want=('mm',))
    config = r.setup()
    np = env.np
    want = None
    for g in range(calls):
        b = r.values(g)
        del r.log[:]
        r.m.execute(r.values(g), config)
        if g % 2 == 0:
            env.same('emulations', len(r.emulations), g // 2 + 1)
            kw = r.emulations[-1]
            C = 'cosmological_parameters'
            for n, w in (('h0', b[C, 'h0']), ('A_s', b[C, 'A_s']), ('omega_b', b[C, 'omega_b']), ('omega_c', b[C, 'omega_c']), ('omega_lambda', 1.0 - b[C, 'omega_m']), ('n_s', b[C, 'n_s']), ('w0', b[C, 'w']),
                         ('z_vec', r.z_vec()), ('k_vec', r.k_vec(b))):
                if n in kw:
                    env.equal(f'emulator {n}', kw[n], w)
                else:
                    env.fails(f'emulator {n}', 'not given')
            env.equal('emulator masses', kw['mass'], np.array([10.0 ** (10 + i) for i in range(5)]))
            r.emulations.pop()
            want = r.m.NonLinearBias(**kw).bnl
        for n, p in r.snapshots('P_mm'):
            env.equal(f'bias used in call {g + 1}', p['beta_nl'], want)


def missing(env, hod='Cacciato', poisson='constant', nb=2):
    """A missing occupation or Poisson value is an error."""
    r = Run(env, want=('gg',), hod=hod, poisson=poisson, nb=nb)
    config = r.setup()
    b = r.values()
    for k in sorted(b.d):
        if k[0] == 'my_hod' and k[1] not in ('a_cen', 'a_sat') or (k[0] == 'pk_parameters'):
            c = r.values()
            del c.d[k]
            env.raises(f'without {k[1]}', lambda: r.m.execute(c, config))


H = HARNESSES = []


def add(name, fn, /, tier='quick', maxpaths=60, weight=1, samples=3, **cfg):
    H.append(dict(name=name, fn=fn, cfg=cfg, tier=tier, maxpaths=maxpaths, weight=weight, samples=samples))


ALL = ('mm', 'gg', 'gm', 'gi', 'ii', 'mi')
add('matter', reach, want=('mm',))
add('matter, documented defaults', reach, want=('mm',), defaults=True, trunc='default')
add('matter, hmcode', reach, want=('mm',), mode='hmcode', hmcode='mead2020_feedback')
add('matter, no truncation', reach, want=('mm',), trunc='none')
add('galaxies', reach, want=('gg', 'gm'))
add('galaxies, truncation defaults', reach, want=('mm', 'gg'), trunc='default', dewiggle=False)
add('galaxies, documented defaults', reach, want=('gg',), defaults=True, trunc='default')
add('galaxies, Zheng two bins', reach, want=('gg',), hod='Zheng', poisson='power_law')
add('galaxies, Zheng one bin', reach, want=('gm',), hod='Zheng', nb=1, ab=False)
add('galaxies, Zhai two bins', reach, want=('gg', 'gm'), hod='Zhai')
add('galaxies, observables table', reach, want=('gg',), file=True)
add('galaxies, observables table, Zheng', reach, want=('gg',), file=True, hod='Zheng')
add('galaxies, response', reach, want=('mm', 'gg'), response=True)
add('galaxies, stellar mass function', reach, want=('gg',), observable='bins')
add('galaxies, power-law Poisson', reach, want=('gg',), poisson='power_law', ab=False)
add('galaxies, fit', reach, want=('mm', 'gm'), hmcode='fit')
add('alignments', reach, want=('gi', 'ii', 'mi'))
add('alignments, documented defaults', reach, want=('ii',), defaults=True, trunc='default', suffix=None)
add('alignments, split defaults', reach, want=('ii',), defaults=True, trunc='default', split=True)
add('alignments, no truncation', reach, want=('ii',), trunc='none', file_ia=False)
for tr in ('matter', 'ia', 'one', 'two'):
    add(f'alignments, only {tr} truncation', reach, want=('gg', 'ii'), trunc=tr, suffix=None if tr == 'one' else ('a', 'b'))
add('alignments, fortuna', reach, want=('gg', 'gi'), mode='fortuna')
add('alignments, no suffix', reach, want=('mi',), suffix=None)
for cen, sat in (('constant', 'halo_mass'), ('halo_mass', 'constant'), ('constant', 'constant')):
    add(f'alignments, {cen} and {sat}', reach, want=('ii',), cen=cen, sat=sat)
    add(f'alignments, {cen} and {sat}, split', reach, want=('gi',), cen=cen, sat=sat, split=True)
add('alignments, split', reach, want=('gi', 'ii', 'mi'), split=True)
add('alignments, split, bins', reach, want=('ii',), split=True, file_ia=False, nbia=2)
add('everything', reach, want=ALL, poisson='power_law', observable='single')
add('everything, second call', reach, calls=2, want=ALL)
add('everything, split, second call', reach, calls=2, want=ALL, split=True, file_ia=False)
add('everything, table then bins, second call', reach, calls=2, want=ALL, file=True, file_ia=False)
add('everything, third call', reach, calls=3, want=ALL, tier='thorough')
add('fortuna, second call', reach, calls=2, want=('gg', 'gi', 'ii'), mode='fortuna', tier='thorough')
add('response, second call', reach, calls=2, want=('mm', 'gg', 'gm'), response=True, tier='thorough')
add('Zhai, second call', reach, calls=2, want=('gg', 'gm'), hod='Zhai', poisson='power_law', tier='thorough')
add('everything, four and three bins', reach, want=ALL, nb=4, file_ia=False, nbia=3)
add('everything, three and five bins, second call', reach, calls=2, want=ALL, hod='Zheng', poisson='power_law', nb=3, file_ia=False, nbia=5, split=True)
for G in ('fine', 'coarse', 'alike', 'alike in size'):
    add(f'grids, {G}', reach, want=('gg', 'ii') if G == 'alike' else ('mm', 'gg', 'ii'), grid=G, response=G == 'fine', mode='fortuna' if G == 'alike' else None)
    if G != 'alike':
        add(f'grids, {G}, second call', reach, calls=2, want=('gm', 'mi'), grid=G, nb=1)
add('emulated bias', bnl)
add('missing values', missing)
add('missing values, Zheng', missing, hod='Zheng', poisson='power_law')
