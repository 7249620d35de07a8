"""Finite signal alphabets and deterministic signal families shared by the checks."""
import itertools

import numpy as np


def tuples(alphabet, n):
    """Every word of length n over the alphabet, simplest (smallest magnitude letters first) first."""
    return itertools.product(sorted(alphabet, key=lambda v: (abs(v), v)), repeat=n)


def lcg(n, seed):
    """Deterministic, platform independent noise in (-1, 1)."""
    x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    out = np.empty(n)
    for i in range(n):
        x = (1664525 * x + 1013904223) & 0xFFFFFFFF
        out[i] = (x >> 8) / float(1 << 23) - 1.0
    return out


FAMILIES = {}


def family(f):
    FAMILIES[f.__name__] = f
    return f


@family
def tone(n):
    t = np.arange(n) / n
    return np.sin(2 * np.pi * 3.3 * t + 0.4)


@family
def two_tones(n):
    t = np.arange(n) / n
    return np.sin(2 * np.pi * 11.7 * t + 0.3) + 0.8 * np.cos(2 * np.pi * 2.9 * t)


@family
def three_tones_trend(n):
    t = np.arange(n) / n
    k = max(3.0, n / 7.3)
    return np.sin(2 * np.pi * k * t) + np.cos(2 * np.pi * k / 4.1 * t + 1) + 0.5 * np.sin(2 * np.pi * 1.7 * t) + 2 * t - 5 * t * t


@family
def chirp(n):
    t = np.arange(n) / n
    return np.sin(2 * np.pi * (2 + n / 14.0 * t) * t) + 0.1 * t


@family
def am(n):
    t = np.arange(n) / n
    return (1 + 0.7 * np.cos(2 * np.pi * 2 * t)) * np.sin(2 * np.pi * n / 6.7 * t)


@family
def noise(n):
    return lcg(n, 1)


@family
def noise2(n):
    return lcg(n, 7) * 3 + 1.5


@family
def walk(n):
    return np.cumsum(lcg(n, 3))


@family
def noisy_ramp(n):
    return np.linspace(-4, 9, n) + 0.3 * lcg(n, 5)


@family
def impulses(n):
    s = np.zeros(n)
    s[n // 5 :: max(3, n // 4)] = 2.0
    return s


@family
def square(n):
    return np.where((np.arange(n) // max(2, n // 9)) % 2 == 0, 1.0, -1.0)


@family
def saw(n):
    p = max(3, n // 6)
    return (np.arange(n) % p) / float(p)


@family
def steps(n):
    return np.floor(np.arange(n) / max(1.0, n / 5.0)) + 0.2 * ((np.arange(n) % 3) == 1)


@family
def quantised(n):
    return np.round(3 * lcg(n, 11))


@family
def alternating(n):
    return np.where(np.arange(n) % 2 == 0, 1.0, -1.0)


@family
def ramp(n):
    return np.linspace(-1, 2, n)


@family
def parabola(n):
    t = np.linspace(-1, 1, n)
    return t * t


@family
def constant(n):
    return np.full(n, 2.5)


@family
def zero(n):
    return np.zeros(n)


@family
def offset_tone(n):
    return 1000.0 + tone(n)


@family
def edge_burst(n):
    s = 0.05 * lcg(n, 17)
    s[: max(2, n // 8)] += 4.0
    s[-max(2, n // 10) :] -= 3.0
    return s


def make(name, n, amp=1.0):
    return FAMILIES[name](n) * amp


SHORT_T = {
    "uniform": lambda n: np.arange(n, dtype=float),
    "offset": lambda n: 3.0 + 0.25 * np.arange(n),
    "tiny": lambda n: 1e-6 * np.arange(n) - 2e-6,
    "uneven": lambda n: np.cumsum(1.0 + 0.5 * lcg(n, 23)),
    "geometric": lambda n: 1.07 ** np.arange(n) if n < 200 else np.cumsum(1 + np.arange(n) / n),
}
