"""C25: the bundled fast Hankel transform is the documented discrete transform and is inverted by its own inverse."""
import math
import numpy as _n
from scipy.special import loggamma
from .common import ENV_ASSUMPTIONS

ASSUMPTIONS = ['scipy.fftpack.rfft and irfft are the linear maps scipy itself gives for that length (taken from unit vectors on every run); the Gamma function is scipy\'s',
               ENV_ASSUMPTIONS[2]]
BOUNDS = 'transforms of 1 to 17 points (thorough: up to 48) of arbitrary real arrays, orders -1/2 to 3.5 and negative integers, biases -1.5 to 1.5 and integers, four spacings, given and low-ringing products kr and a symbolic kr for the unbiased and biased transform, arbitrary ratio rk, both directions'
OUTSIDE = 'the difference between the discrete transform and the continuous Hankel integral (N01); the interactive option kropt=3; more than 48 points'
MOD = 'cosmosis_modules.pk_to_real.pyfftlog'


def coefficient(mu, x):
    """U_mu(x) = 2^x Gamma((mu+1+x)/2) / Gamma((mu+1-x)/2); None where it is infinite."""
    x = complex(x)
    p, m = (mu + 1 + x) / 2, (mu + 1 - x) / 2
    pole = lambda z: z.imag == 0 and z.real <= 0 and z.real == round(z.real)
    if pole(p) and pole(m):
        n = -mu          # J_-n = (-1)^n J_n
        return (-1) ** int(round(n)) * coefficient(n, x)
    if pole(p):
        return None
    if pole(m):
        return 0j
    return _n.exp(x * math.log(2.0) + loggamma(p) - loggamma(m))


def factors(n, mu, q, dlnr, kr):
    """Fourier multipliers u_m, m = 0 .. n//2."""
    u = []
    for m in range(n // 2 + 1):
        w = 2 * math.pi * m / (n * dlnr)
        c = coefficient(mu, complex(q, w))
        u.append(None if c is None else c * _n.exp(-1j * w * math.log(kr)))
    return u


def kernel(n, u, tdir):
    """out_j = sum_l K[j, l] a_l with j, l counted from the centre, from the multipliers of the transform."""
    K = _n.zeros((n, n))
    for m, v in enumerate(u):
        nyquist = n % 2 == 0 and m == n // 2 and m > 0
        if v is None or (m == 0 and tdir < 0 and v == 0):
            v = 0.0                                        # documented: the constant is left out
        elif nyquist:
            v = v.real if tdir > 0 else 1 / v.real
        elif tdir < 0:
            v = 1 / v.conjugate()          # inverse of multiplying by u_m and reversing the order
        else:
            v = complex(v)
        mult = 1.0 if m == 0 or nyquist else 2.0
        for j in range(n):
            for l in range(n):
                K[j, l] += mult * (v * _n.exp(-2j * math.pi * m * (j + l - (n - 1)) / n)).real / n
    K[_n.abs(K) < 1e-14 * _n.abs(K).max()] = 0.0
    return K


def apply(env, K, a):
    return env.np.array([sum(float(K[j, l]) * a[l] for l in range(len(a))) for j in range(len(a))])


def setup(env, n, mu, q, dlnr, kr, kropt):
    m = env.load(MOD)
    got = m.fhti(n, mu, dlnr, q, kr, kropt)
    used, xsave = got
    env.same('two results', len(got), 2)
    if kropt == 0:
        env.equal('kr is kept', used, kr)
    else:
        env.equal('kr is the low-ringing one', used, m.krgood(mu, q, dlnr, kr))
    return m, float(used), xsave


def expected(env, which, a, n, mu, q, dlnr, kr, tdir, rk):
    np = env.np
    x = np.array([(j - (n - 1) / 2) * dlnr for j in range(n)])
    K = kernel(n, factors(n, mu, q, dlnr, kr), tdir)
    if which == 'fhtq':
        return apply(env, K, a)
    if which == 'fht':
        # A(r) = a(r) r^-q, A~(k) = a~(k) k^q, with lengths in units of the centre r and k = kr / r
        return apply(env, K, a * np.exp(-tdir * q * x)) * np.exp(-tdir * q * x) * kr ** (-tdir * q)
    # Fourier: sqrt(kr) J(kr) dr, i.e. the transform of a sqrt(r) divided by sqrt(k); backward: q -> -q, r <-> k
    return apply(env, K, a * np.exp((0.5 - tdir * q) * x)) * np.exp(-(0.5 + tdir * q) * x) * kr ** (-tdir * q) * np.sqrt(rk) ** tdir


def transform(env, n, mu, q, dlnr, kr=1.0, kropt=0, back=True):
    m, kr, xsave = setup(env, n, mu, q, dlnr, kr, kropt)
    np = env.np
    a = env.arr('a', (n,), 0.5, 3.0)
    rk = env.real('rk', 0.2, 5.0)
    keep, before = np.array(a), np.array(xsave)
    for tdir in ((1, -1) if back else (1,)):
        for which in ('fhtq', 'fht', 'fftl'):
            args = (a, xsave, rk, tdir) if which == 'fftl' else (a, xsave, tdir)
            env.equal(f'{which}, direction {tdir}', getattr(m, which)(*args),
                      expected(env, which, a, n, mu, q, dlnr, kr, tdir, rk))
    env.equal('default direction', m.fht(a, xsave), m.fht(a, xsave, 1))
    env.equal('default ratio', m.fftl(a, xsave), m.fftl(a, xsave, 1.0, 1))
    env.equal('input unchanged', a, keep)
    env.equal('working array unchanged', xsave, before)


def roundtrip(env, n, mu, q, dlnr, kr=1.0, kropt=0):
    m, kr, xsave = setup(env, n, mu, q, dlnr, kr, kropt)
    a = env.arr('a', (n,), 0.5, 3.0)
    rk = env.real('rk', 0.2, 5.0)
    for first in (1, -1):
        env.equal(f'fhtq {first} then {-first}', m.fhtq(m.fhtq(a, xsave, first), xsave, -first), a)
        env.equal(f'fht {first} then {-first}', m.fht(m.fht(a, xsave, first), xsave, -first), a)
        env.equal(f'fftl {first} then {-first}', m.fftl(m.fftl(a, xsave, rk, first), xsave, rk, -first), a)


def dual(env, n, mu, q, dlnr, kr=1.0, kropt=0):
    """The inverse of the transform with bias q is the transform with bias -q."""
    m, kr, x1 = setup(env, n, mu, q, dlnr, kr, kropt)
    x2 = m.fhti(n, mu, dlnr, -q, kr, 0)[1]
    a = env.arr('a', (n,), 0.5, 3.0)
    env.equal('inverse is the transform of the opposite bias', m.fht(a, x1, -1), m.fht(a, x2, 1))


def low_ringing(env, mu, q, dlnr, kr):
    m = env.load(MOD)
    used = float(m.krgood(mu, q, dlnr, kr))
    env.le('within half a spacing', abs(math.log(used / kr)), abs(dlnr) / 2 * (1 + 1e-12))
    # at the highest frequency pi/dlnr the multiplier is real
    w = math.pi / dlnr
    c = coefficient(mu, complex(q, w)) * _n.exp(-1j * w * math.log(used))
    env.le('multiplier is real at the highest frequency', abs(c.imag), 1e-8 * abs(c))
    env.equal('and stays so', m.krgood(mu, q, dlnr, used), used)
    env.same('no points', float(m.fhti(0, mu, dlnr, q, kr, 1)), used)
    env.same('no spacing', float(m.krgood(mu, q, 0.0, kr)), kr)


def low_ringing_any(env, mu, q, dlnr):
    """The product kr is a variable: the change is by a whole number of half-periods of the multiplier's phase."""
    m = env.load(MOD)
    np = env.np
    kr = env.real('kr', 0.3, 3.0)
    w = math.pi / dlnr
    ph = float((loggamma((mu + 1 + q + 1j * w) / 2) + loggamma((mu + 1 - q + 1j * w) / 2)).imag)
    turns = np.log(2.0 / kr) / dlnr + ph / math.pi
    env.equal('nearest kr with a real multiplier', m.krgood(mu, q, dlnr, kr), kr * np.exp((turns - np.round(turns)) * dlnr))


def any_kr(env, n, mu, q, dlnr):
    """The product kr is a variable."""
    m = env.load(MOD)
    np = env.np
    kr = env.real('kr', 0.3, 3.0)
    used, xsave = m.fhti(n, mu, dlnr, q, kr, 0)
    env.equal('kr is kept', used, kr)
    a = env.arr('a', (n,), 0.5, 3.0)
    u = []
    for i in range(n // 2 + 1):
        w = 2 * math.pi * i / (n * dlnr)
        y = w / 2
        if q == 0:
            amp, ph = 1.0, 2 * loggamma((mu + 1) / 2 + 1j * y).imag
        else:
            zp, zm = loggamma((mu + 1 + q) / 2 + 1j * y), loggamma((mu + 1 - q) / 2 + 1j * y)
            amp, ph = math.exp(q * math.log(2) + zp.real - zm.real), zp.imag + zm.imag
        arg = 2 * y * np.log(2.0 / kr) + float(ph)
        u.append((amp, amp * np.cos(arg), amp * np.sin(arg)))
    out = []
    for j in range(n):
        acc = 0.0
        for l in range(n):
            for i, (amp, c, s) in enumerate(u):
                t = -2 * math.pi * i * (j + l - (n - 1)) / n
                nyq = n % 2 == 0 and i == n // 2
                f = (1.0 if i == 0 or nyq else 2.0) / n
                acc = acc + f * a[l] * (c * math.cos(t) - (0.0 if nyq else s * math.sin(t)))
        out.append(acc)
    env.equal('fhtq', m.fhtq(a, xsave, 1), np.array(out))
    x = np.array([(j - (n - 1) / 2) * dlnr for j in range(n)])
    b = m.fhtq(a * np.exp(-q * x), xsave, 1)
    env.equal('fht', m.fht(a, xsave, 1), b * np.exp(-q * x) * kr ** (-q))


H = HARNESSES = []


def add(name, fn, /, tier='quick', maxpaths=20, weight=1, samples=2, **cfg):
    H.append(dict(name=name, fn=fn, cfg=cfg, tier=tier, maxpaths=maxpaths, weight=weight, samples=samples))


CASES = [(0.0, 0.0, 0.3), (2.0, 0.0, 0.1), (0.5, 0.0, 0.7), (-0.5, 0.0, 0.3), (0.0, 0.4, 0.3), (2.0, -0.7, 0.1), (0.5, 1.2, 0.7), (3.5, -1.5, 0.05), (-0.5, 0.2, 0.3),
         (1.0, 1.0, 0.3), (2.0, -1.0, 0.3)]
for n in (1, 2, 3, 4, 5, 8, 9, 16, 17):
    for i, (mu, q, d) in enumerate(CASES):
        deep = n > 5 and (i + n) % 3 != 0 or n == 17 and i not in (1,)
        t = 'thorough' if deep else 'quick'
        add(f'{n} points, mu={mu}, q={q}', transform, n=n, mu=mu, q=q, dlnr=d, kr=1.0, kropt=1, tier=t, weight=n)
        add(f'{n} points, mu={mu}, q={q}, kr 1.7', transform, n=n, mu=mu, q=q, dlnr=d, kr=1.7, tier=t, weight=n)
        add(f'{n} points and back, mu={mu}, q={q}', roundtrip, n=n, mu=mu, q=q, dlnr=d, kr=0.6, kropt=(i + n) % 2, tier=t, weight=n)
        if q:
            add(f'{n} points, opposite bias, mu={mu}, q={q}', dual, n=n, mu=mu, q=q, dlnr=d, kr=0.6, kropt=(n + 1) % 2, tier=t, weight=n)
for n in (24, 33, 48):
    for mu, q, d in (CASES[1], CASES[4], CASES[7]):
        add(f'{n} points, mu={mu}, q={q}', transform, n=n, mu=mu, q=q, dlnr=d, kr=1.3, kropt=1, tier='thorough', weight=n)
        add(f'{n} points and back, mu={mu}, q={q}', roundtrip, n=n, mu=mu, q=q, dlnr=d, kr=1.3, kropt=1, tier='thorough', weight=n)
for n in (4, 5):
    add(f'{n} points, no constant, mu=1, q=2', transform, n=n, mu=1.0, q=2.0, dlnr=0.3)
    add(f'{n} points, no constant, mu=1, q=-4', transform, n=n, mu=1.0, q=-4.0, dlnr=0.3)
    for mu, q in ((-3.0, 2.0), (-4.0, 1.0), (-4.0, -1.0), (-5.0, 4.0), (-5.0, -4.0), (-6.0, 3.0), (-3.0, -2.0)):
        add(f'{n} points, negative order mu={mu}, q={q}', transform, n=n, mu=mu, q=q, dlnr=0.3)
for mu, q, d in CASES:
    for kr in (1.0, 2.6):
        add(f'low-ringing kr, mu={mu}, q={q}, kr={kr}', low_ringing, mu=mu, q=q, dlnr=d, kr=kr, samples=1)
for mu, q, d in CASES:
    add(f'low-ringing kr, mu={mu}, q={q}, any kr', low_ringing_any, mu=mu, q=q, dlnr=d, samples=2)
for n in (2, 3, 4, 5, 6, 8):
    for mu, q, d in ((2.0, 0.0, 0.3), (0.0, 0.4, 0.5)):
        add(f'{n} points, any kr, mu={mu}, q={q}', any_kr, n=n, mu=mu, q=q, dlnr=d, weight=n, tier='quick' if n < 6 else 'thorough')
