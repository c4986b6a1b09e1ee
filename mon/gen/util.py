"""Small random generators shared by the workloads."""
import numpy as np
import string

UNITS = ['s', 'm', 'm/s', 'm/s^2', 'deg', 'rpm', 'kN', 'kN-m', 'N', 'N-m', '-', 'rad', 'W', 'kW', 'Hz', '%', 'deg/s', 'N/m', '1/m', 'kg*m^2', 'm/sec^2', 'sec']
ALNUM = string.ascii_letters + string.digits


def names(rnd, n, maxlen=10, minlen=1, chars=ALNUM, avoid=('time',), first=string.ascii_letters):
    out, seen = [], set(a.lower() for a in avoid)
    while len(out) < n:
        L = rnd.randint(minlen, maxlen)
        s = rnd.choice(first) + ''.join(rnd.choice(chars) for _ in range(L - 1))
        if s.lower() in seen or s.lower() in ('nan', 'inf', 'e', 'infinity', 'none', 'null', 'na', 'true', 'false', 'n'):
            continue
        seen.add(s.lower())
        out.append(s)
    return out


def logint(rnd, lo, hi):
    """integer with a log-uniform distribution in [lo, hi]"""
    return int(round(np.exp(rnd.uniform(np.log(lo), np.log(hi + 0.499)))))


def values(rng, rnd, shape, kinds=None, lo=-12, hi=12):
    """Arrays of numbers of very different character."""
    kind = rnd.choice(kinds or ['normal', 'int', 'const', 'zero', 'wide', 'tiny', 'huge', 'offset', 'neg', 'mixed'])
    if kind == 'normal':
        a = rng.normal(0, 1, shape)
    elif kind == 'int':
        a = rng.integers(-1000, 1000, shape).astype(float)
    elif kind == 'const':
        a = np.full(shape, rng.normal() * 10.0 ** rnd.randint(-6, 6))
    elif kind == 'zero':
        a = np.zeros(shape)
    elif kind == 'wide':
        a = rng.normal(0, 1, shape) * 10.0 ** rng.integers(lo, hi + 1, shape)
    elif kind == 'tiny':
        a = rng.normal(0, 1, shape) * 10.0 ** lo
    elif kind == 'huge':
        a = rng.normal(0, 1, shape) * 10.0 ** hi
    elif kind == 'offset':
        a = rng.normal(0, 1, shape) + 10.0 ** rnd.randint(1, 5)
    elif kind == 'neg':
        a = -np.abs(rng.normal(0, 1, shape)) - 1
    else:
        a = rng.normal(0, 1, shape)
        m = rng.random(shape)
        a = np.where(m < 0.2, 0.0, np.where(m < 0.4, a * 1e9, np.where(m < 0.6, np.round(a), a)))
    return a, kind
