"""Stand-ins through which the environment of the ensemble methods is enumerated: noise source and decomposer."""
import numpy as np


class ScriptedRandom:
    """Replaces the noise generator: hands out scripted unit-noise rows, one per requested row."""

    def __init__(self, rows):
        self.rows, self.next, self.calls = [np.asarray(r, float) for r in rows], 0, []

    def _draw(self, size):
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        n = int(np.prod(shape[:-1])) if len(shape) > 1 else 1
        out = []
        for _ in range(n):
            r = self.rows[self.next % len(self.rows)]
            self.next += 1
            out.append(np.resize(r, shape[-1]))
        return np.array(out).reshape(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.calls.append(("normal", float(scale), size))
        return loc + scale * self._draw(size)

    def standard_normal(self, size=None):
        self.calls.append(("normal", 1.0, size))
        return self._draw(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls.append(("uniform", float(high - low), size))
        return low + (high - low) * (self._draw(size) + 1) / 2

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random = random_sample

    def randn(self, *size):
        return self.standard_normal(size)

    def rand(self, *size):
        return self.uniform(0.0, 1.0, size)

    def seed(self, seed=None):
        pass


def plant(obj, source):
    """Makes `source` the noise source of an ensemble object, whatever the attribute holding it is called."""
    names = [k for k, v in vars(obj).items() if isinstance(v, (np.random.RandomState, np.random.Generator, ScriptedRandom))]
    for k in names or ["random"]:
        setattr(obj, k, source)
    return obj


class ScriptedEMD:
    """Replaces the decomposer of an ensemble: the i-th decomposition has a scripted number of rows."""

    def __init__(self, counts, trend_rows=True):
        self.counts, self.calls, self.rows = list(counts), [], []

    def _make(self, i, n, N):
        base = np.arange(N) % 5
        return np.array([(1 + i) * 10.0 ** (r % 3) + r + 0.5 * base for r in range(n)]).reshape(n, N)

    def emd(self, S, T=None, max_imf=-1):
        i = len(self.calls)
        self.calls.append((np.array(S), None if T is None else np.array(T), max_imf))
        rows = self._make(i, self.counts[i % len(self.counts)], len(S))
        self.rows.append(rows)
        return rows.copy()

    def __call__(self, S, T=None, max_imf=-1):
        return self.emd(S, T, max_imf)

    def get_imfs_and_trend(self):
        r = self.rows[-1]
        if len(r) == 0:
            return r.copy(), np.zeros(r.shape[1])
        return r[:-1].copy(), r[-1].copy()

    def get_imfs_and_residue(self):
        return self.get_imfs_and_trend()


class RecordingEMD:
    """Passes everything to a real decomposer and records what each decomposition was asked."""

    def __init__(self, inner):
        self.inner, self.calls = inner, []

    def emd(self, S, T=None, max_imf=-1):
        self.calls.append((np.array(S), None if T is None else np.array(T), max_imf))
        return self.inner.emd(S, T, max_imf=max_imf)

    def __call__(self, S, T=None, max_imf=-1):
        return self.emd(S, T, max_imf)

    def get_imfs_and_trend(self):
        return self.inner.get_imfs_and_trend()

    def get_imfs_and_residue(self):
        return self.inner.get_imfs_and_residue()
