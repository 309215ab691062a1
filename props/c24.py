"""C24: Poisson weighting models."""
BOUNDS = '4 halo masses (any positive values), scalar and 2-d mass arrays; amplitude, pivot and slope any reals in the stated ranges'
OUTSIDE = 'overflow / underflow of floating point'
ASSUMPTIONS = ['real arithmetic stands for floating point (relative tolerance 1e-9 per term)']


def models(env):
    return env.load('onepower.utils.poisson')


def constant(env, shape):
    m = env.arr('m', shape, 1e8, 1e17)
    p = env.real('poisson', 0.0, 3.0, special=[0.0, 1.0])
    M = models(env)
    env.equal('constant', M.constant(m, poisson=p).poisson_func, p * env.np.ones(shape))
    env.equal('constant default', M.constant(m).poisson_func, env.np.ones(shape))


def power_law(env, shape):
    m = env.arr('m', shape, 1e8, 1e17)
    p = env.real('poisson', 0.0, 3.0, special=[0.0, 1.0])
    pivot = env.real('pivot', 8.0, 16.0, special=[12.0])
    slope = env.real('slope', -2.0, 2.0, special=[0.0, 1.0, -1.0])
    M = models(env)
    want = p * env.np.exp(slope * (env.np.log(m) - pivot * 2.302585092994046))
    env.equal('power law', M.power_law(m, poisson=p, pivot=pivot, slope=slope).poisson_func, want)
    env.equal('power law default amplitude', M.power_law(m, pivot=pivot, slope=slope).poisson_func,
              env.np.exp(slope * (env.np.log(m) - pivot * 2.302585092994046)))
    env.equal('unit amplitude zero slope is Poisson', M.power_law(m, poisson=1.0, pivot=pivot, slope=0.0).poisson_func, env.np.ones(shape))


def missing(env):
    m = env.arr('m', 2, 1e8, 1e17)
    s = env.real('s', -2.0, 2.0)
    M = models(env)
    env.raises('missing pivot', lambda: M.power_law(m, slope=s).poisson_func, ValueError)
    env.raises('missing slope', lambda: M.power_law(m, pivot=s).poisson_func, ValueError)
    env.raises('missing both', lambda: M.power_law(m).poisson_func, ValueError)
    env.raises('unknown parameter', lambda: M.power_law(m, pivot=s, slope=s, nope=s))
    env.raises('pivot for constant', lambda: M.constant(m, pivot=s))


HARNESSES = [
    dict(name='constant-1d', fn=constant, cfg=dict(shape=(4,))),
    dict(name='constant-2d', fn=constant, cfg=dict(shape=(2, 3))),
    dict(name='power-law-1d', fn=power_law, cfg=dict(shape=(4,))),
    dict(name='power-law-2d', fn=power_law, cfg=dict(shape=(2, 3))),
    dict(name='missing', fn=missing),
]
