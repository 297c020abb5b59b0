"""Helpers shared by the drivers of forecasters: data, model classes, projections onto the specifications' integers."""
import copy, pickle
import numpy as np, pandas as pd
from core import NA, BAD, enc
from pyforecaster.forecaster import LinearForecaster, LGBForecaster, ScenarioGenerator
from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid, LGBEnergyAware
from pyforecaster.forecasting_models.randomforests import QRF
from pyforecaster.forecasting_models.random_fourier_features import RFFRegression, AdditiveRFFRegression

FREQS = ['h', '30min', '15min', '2h', '6h']


def index(rng, n, freq=None, tz=None):
    freq = freq or FREQS[rng.integers(len(FREQS))]
    start = pd.Timestamp('2023-01-01') + pd.Timedelta(hours=int(rng.integers(0, 24 * 300)))
    return pd.date_range(start, periods=n, freq=freq, tz=tz)


def data(rng, n, k, nf=3, idx=None, lo=-50, hi=50, names=None, ynames=None):
    """integer features, integer targets that depend on them and on noise"""
    idx = index(rng, n) if idx is None else idx
    x = pd.DataFrame(rng.integers(lo, hi, (n, nf)).astype(float), index=idx, columns=names or ['f%d' % i for i in range(nf)])
    w = rng.integers(-2, 3, (nf, k))
    y = x.values @ w + rng.integers(-20, 21, (n, k)) + 10 * np.arange(k)
    return x, pd.DataFrame(y.astype(float), index=idx, columns=ynames or ['y_%d' % i for i in range(k)])


def err_name(ex):
    return '%s: %s' % (type(ex).__name__, str(ex)[:160].replace('"', "'").replace('\n', ' ').replace('\\', '/'))


def same_frame(a, b):
    try:
        pd.testing.assert_frame_equal(a, b, check_exact=True, check_freq=False)
        return True
    except AssertionError:
        return False


def mat(a, scale):
    a = np.asarray(a, dtype=float)
    return [[rnd(v, scale) for v in r] for r in a.reshape(a.shape[0], -1)]


def rnd(v, scale):
    if np.isnan(v):
        return NA
    s = v * scale
    return int(round(s)) if abs(s) < 2 ** 30 else BAD


def lev(q):
    return int(round(float(q) * 10000))


def qcols(df):
    return [[str(a), lev(b)] for a, b in df.columns]


GRID20 = [i / 20 for i in range(1, 20)]


def gen_levels(rng, nmin=2, nmax=6):
    k = int(rng.integers(nmin, nmax + 1))
    return np.array(sorted(rng.choice(GRID20, k, replace=False)))


class InPlace:
    """stand-in for a pool of processes: every task runs on pickled copies of what it was given, one after the other"""
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def shutdown(self, *a, **k):
        pass

    def submit(self, fn, *a, **k):
        import pickle
        from concurrent.futures import Future
        f = Future()
        try:
            f.set_result(pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(fn))(*pickle.loads(pickle.dumps(a)), **k))))
        except Exception as ex:
            f.set_exception(ex)
        return f

    def map(self, fn, *its, **k):
        return iter([self.submit(fn, *a).result() for a in zip(*its)])


def in_place():
    """pools of processes are replaced by InPlace within this context"""
    import concurrent.futures as cf
    from unittest import mock
    return mock.patch.object(cf, 'ProcessPoolExecutor', InPlace)
