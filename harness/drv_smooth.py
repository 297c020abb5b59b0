"""C27: exponential smoothing (ExponentialSmoothing of statsmodels_wrapper)"""
import copy, io, contextlib, pickle
import numpy as np, pandas as pd
from core import NA, pmap
from fcst import *
from statsmodels.tsa.statespace import exponential_smoothing as es
from pyforecaster.forecasting_models.statsmodels_wrapper import ExponentialSmoothing

SC, D = 10000, 8


class Given(es.ExponentialSmoothing):
    """smoothing with gains and an initial state which are given, not estimated"""
    given = None

    def fit(self, *a, **k):
        return self.smooth(np.asarray(type(self).given))


def c27_item(item):
    seed, beh = item
    rng = np.random.default_rng(seed)
    trend, m = rng.random() < .5, int(rng.choice([0, 0, 2, 3, 4]))
    a, b, g = int(rng.integers(1, 7)), int(rng.integers(0, 4)), int(rng.integers(0, 4))
    n = int(rng.integers(1, 5))
    freq = ['1h', '15min', '1D'][int(rng.integers(3))]
    l0, b0 = int(rng.integers(-20, 20)), int(rng.integers(-1, 2))
    sfree = [int(v) for v in rng.integers(-5, 6, max(0, m - 1))]      # the last one is minus their sum
    season = (sfree + [-sum(sfree)])[::-1] if m else []
    Given.given = [a / D] + ([b / D] if trend else []) + ([g / D] if m else []) + [float(l0)] + ([float(b0)] if trend else []) + [float(v) for v in sfree]
    q = sorted({int(v) for v in rng.choice(np.arange(1, 20), int(rng.integers(1, 5)))})
    levels = np.array(q) / 20
    name = ['a', 'load'][int(rng.integers(2))]
    f = ExponentialSmoothing(name, levels, n_sa=n, trend=bool(trend) or None, seasonal=m or None)
    f.model_class = Given
    T = dict(id='smoothing %s seed=%d' % ('/'.join('%s%d' % (o['op'], o['x']) for o in beh), seed % 10000), n=n, q=q, tol=60, l0=l0 * SC, b0=b0 * SC if trend else 0, s0=[v * SC for v in season],
             p=dict(a=a, b=b if trend else 0, g=g if m else 0, m=m, D=D), cols=['%s_t+%d' % (name, k + 1) for k in range(n)], ev=[])
    start = pd.Timestamp('2021-03-01 00:00')
    step = pd.Timedelta(freq)
    end = None

    def frame(first, rows, holes):
        y = rng.integers(-30, 31, rows).astype(float)
        if holes == 'end':
            y[-int(rng.integers(1, 3)):] = np.nan
        elif holes:
            y[1:][rng.random(rows - 1) < .2] = np.nan
        x = pd.DataFrame({'z': rng.normal(size=rows), name: y}, index=pd.date_range(first, periods=rows, freq=freq))
        return x[[name, 'z']] if rng.random() < .5 else x
    enc_y = lambda x: [NA if np.isnan(v) else int(v) * SC for v in x[name]]
    train = None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for o in beh:
            e = dict(op=o['op'])
            try:
                if o['op'] == 'fit':
                    first = start + int(rng.integers(0, 60)) * step
                    x = frame(first, int(rng.integers(max(8, 2 * m + 2) + n, 30)), rng.random() < .25 and 'end')
                    e.update(y=enc_y(x))
                    f.fit(x.copy())
                    train, end = x, x.index[-1]
                    e['obs'] = dict(ok=True)
                elif o['op'] == 'copy':
                    f = copy.deepcopy(f)
                    e['obs'] = dict(ok=True)
                else:
                    k = o['x']
                    rows = int(rng.integers(3, 9))
                    x = [None, lambda: frame(end + step, rows, rng.random() < .4), lambda: train.copy(), lambda: frame(end + int(rng.integers(3, 30)) * step, rows, False),
                         lambda: frame(end + step, int(rng.integers(1, 3)), False)][k]()
                    e.update(y=enc_y(x), cont=k in (1, 4))
                    x0 = x.copy()
                    if o['op'] == 'pred':
                        p = f.predict(x)
                        e['obs'] = dict(ok=True, mutated=not same_frame(x, x0), index=bool(p.index.equals(x0.index)), cols=[str(v) for v in p.columns], pred=mat(p, SC))
                    elif rng.random() < .5:
                        w = f.predict_quantiles(x, dataframe=False)
                        e['obs'] = dict(ok=True, labels=w.shape == (len(x0), n, len(q)), q=[mat(r, SC) for r in np.asarray(w)] if w.ndim == 3 else [])
                    else:
                        w = f.predict_quantiles(x, dataframe=True)
                        e['obs'] = dict(ok=True, labels=bool(w.index.equals(x0.index)), q=[[[rnd(w.loc[t, (c, v)], SC) for v in levels] for c in T['cols']] for t in x0.index])
            except Exception as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
            T['ev'].append(e)
            if not e['obs']['ok']:
                break
    return T


def c27(c):
    c.design('SmoothingMC', c.n('SmoothingMC.cfg', 'SmoothingMC_deep.cfg'), must_cover=('Obs', 'Miss'))
    hs = [b for b in c.behaviours('SmoothHist', 'SmoothHist%d.cfg' % c.n(4, 5))]
    rng = c.rng('c27')
    pick = [hs[i] for i in rng.permutation(len(hs))[:c.n(300, 3000)]]
    tr = pmap(c27_item, [(int(s), b) for s, b in zip(rng.integers(1 << 30, size=len(pick)), pick)])
    c.validate('SmoothTrace', tr, shards=8)
