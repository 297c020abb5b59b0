"""Conformance driver of the benchmark forecasters: C21."""
import numpy as np, pandas as pd
from core import NA, BAD, pmap
from fcst import *
from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent, DiscreteDistr


def series(rng, idx, lo=-30, hi=31):
    """an integer series among other columns"""
    n = len(idx)
    v = rng.integers(lo, hi, n) + (np.arange(n) % 5) * int(rng.integers(-5, 6))
    x = pd.DataFrame({'other': rng.random(n), 'load': v.astype(float) if rng.random() < .7 else v, 'z': rng.integers(0, 3, n)}, index=idx)
    return x[list(rng.permutation(x.columns))], v


def c21_series(seed):
    rng = np.random.default_rng(seed)
    kind = 'persistent' if rng.random() < .4 else 'seasonal'
    n = int(rng.integers(2, 6))
    s = int(rng.integers(1, 9)) if kind == 'seasonal' else 1
    cond = rng.random() < .2
    levels = [[10, 50, 90], [25, 60], [5, 35, 50, 75, 95]][int(rng.integers(3))]
    val = [None, .25, .5][int(rng.integers(3))]
    kw = dict(n_sa=n, q_vect=np.array(levels) / 100, val_ratio=val, conditional_to_hour=cond)
    m = Persistent('load', **kw) if kind == 'persistent' else SeasonalPersistent('load', seasonality=s, **kw)
    # with no rows set apart the first season of the training is forecast from its own end: errors are not comparable
    quant_ok = not (kind == 'seasonal' and val is None)
    freq = 'h' if cond else FREQS[rng.integers(len(FREQS))]
    tz = None if rng.random() < .7 else 'Europe/Zurich'
    ev, trained = [], False
    start = pd.Timestamp('2023-01-01') + pd.Timedelta(hours=int(rng.integers(0, 24 * 300)))
    for _ in range(int(rng.integers(2, 6))):
        if not trained or rng.random() < .2:
            N = 4 * int(rng.integers(50, 60) if cond else rng.integers(10, 16))
            idx = pd.date_range(start, periods=N, freq=freq, tz=tz)
            start = (idx[-1] + (idx[1] - idx[0])).tz_localize(None)
            x, v = series(rng, idx)
            x0 = x.copy()
            e = dict(op='fit', xs=[int(a) for a in v], nval=0 if val is None else int(N * val), hours=[int(h) for h in idx.hour])
            try:
                m.fit(x) if rng.random() < .5 else m.fit(x, x[['z']])
                e['obs'] = dict(ok=True, err='', mutated=not same_frame(x, x0))
                trained = True
            except Exception as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
            ev.append(e)
            if not trained:
                break
        R = int(rng.integers(1, 2 * s + 4))
        idx = pd.date_range(start, periods=R, freq=freq, tz=tz)
        x, v = series(rng, idx)
        x0 = x.copy()
        op = 'quant' if quant_ok and rng.random() < .5 else 'predict'
        e = dict(op=op, xs=[int(a) for a in v], hours=[int(h) for h in idx.hour])
        try:
            if op == 'predict':
                r = m.predict(x)
            else:
                r = m.predict_quantiles(x)
            o = dict(ok=True, err='', mutated=not same_frame(x, x0), index=bool(r.index.equals(idx)), v=mat(r.values, 1000))
        except Exception as ex:
            o = dict(ok=False, err=err_name(ex))
        e['obs'] = o
        ev.append(e)
    return dict(kind=kind, n=n, s=s, cond=bool(cond), levels=levels, ev=ev, id='%s s=%d n=%d val=%s/%d' % (kind, s, n, val, seed % 10000))


def c21_discrete(seed):
    rng = np.random.default_rng(seed)
    dt = int(rng.choice([15, 30, 60, 120, 1440]))
    tz = None if rng.random() < .6 else 'Europe/Zurich'
    m = DiscreteDistr(**({} if rng.random() < .5 else dict(q_vect=np.array([.1, .5, .9]))))
    ev, trained = [], False
    minute = lambda idx: [int(v) for v in idx.hour * 60 + idx.minute]
    for _ in range(int(rng.integers(2, 5))):
        if not trained or rng.random() < .25:
            k = int(rng.integers(1, 4))
            support = sorted(int(v) for v in rng.permutation(np.arange(-5, 12))[:int(rng.integers(1, 5))])
            N = int(rng.integers(4, 120))
            first = pd.Timestamp('2023-10-28 20:00') if rng.random() < .3 else pd.Timestamp('2023-02-01') + pd.Timedelta(minutes=15 * int(rng.integers(0, 96)))
            idx = pd.date_range(first, periods=N, freq='%dmin' % dt, tz=tz)
            if N >= 12 and rng.random() < .3:
                # samples are missing: the sampling time is that of most of them
                gone = set(int(v) for v in rng.integers(2, N - 1, N // 6))
                idx = idx[[i for i in range(N) if i not in gone]]
            if rng.random() < .25:
                idx = idx.append(idx)                      # two series stacked
            names = list(rng.permutation(['q%d' % i for i in range(6)])[:k]) if rng.random() < .7 else [int(i) for i in rng.permutation(6)[:k]]
            y = pd.DataFrame(rng.choice(support, (len(idx), k)), index=idx, columns=names)
            sup = sorted(set(int(v) for v in y.values.ravel()))
            sc = 1
            if rng.random() < .5:
                sc = float(rng.choice([1, .25, 8]))         # values need not be a unit apart
                y = y * sc
            yi = y / sc
            x = pd.DataFrame({'f': rng.random(len(idx))}, index=idx)
            x0, y0 = x.copy(), y.copy()
            e = dict(op='fit', minutes=minute(idx), ys=[[int(v) for v in r] for r in yi.values], dt=dt, support=sup)
            try:
                m.fit(x, y)
                e['obs'] = dict(ok=True, err='', mutated=not (same_frame(x, x0) and same_frame(y, y0)))
                trained = True
            except Exception as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
            ev.append(e)
            if not trained:
                break
        R = int(rng.integers(1, 8))
        pool = pd.date_range('2023-10-27' if rng.random() < .3 else '2023-05-01', periods=4 * 96, freq='15min', tz=tz)
        if rng.random() < .5:
            iq = pool[np.sort(rng.permutation(len(pool))[:R])] + pd.Timedelta(minutes=int(rng.choice([0, 0, 7])))
        else:
            iq = pd.date_range(pool[int(rng.integers(96))], periods=R, freq='%dmin' % (dt if rng.random() < .6 else int(rng.choice([15, 30, 60, 180]))))
        xq = pd.DataFrame({'f': rng.random(R)}, index=iq)
        x0 = xq.copy()
        e = dict(op='discrete', minutes=minute(iq))
        try:
            p, v = m.predict_probabilities(xq), m.predict(xq)
            lab = ''
            if set(v.columns) != set(names) or len(v.columns) != len(names):
                lab = 'targets of the forecast'
            elif {(a, float(b)) for a, b in p.columns} != {(a, b * sc) for a in names for b in sup} or len(p.columns) != len(names) * len(sup):
                lab = 'targets and values of the probabilities'
            if lab:
                o = dict(ok=True, err='', mutated=False, index=True, labels=lab)
            else:
                at = {(a, float(b)): i for i, (a, b) in enumerate(p.columns)}
                o = dict(ok=True, err='', labels='', mutated=not same_frame(xq, x0), index=bool(p.index.equals(iq) and v.index.equals(iq)),
                         p=mat(p.values[:, [at[(a, b * sc)] for a in names for b in sup]], 10000), v=mat(v[names].values / sc, 1000))
        except Exception as ex:
            o = dict(ok=False, err=err_name(ex))
        e['obs'] = o
        ev.append(e)
    T = dict(kind='discrete', n=0, s=0, cond=False, levels=[], ev=ev, id='discrete dt=%d tz=%s/%d' % (dt, tz, seed % 10000))
    return T


def split_targets(t):
    """one trace per training: the number of targets is a constant of a trace"""
    out, cur = [], None
    for e in t['ev']:
        if e['op'] == 'fit':
            cur = dict(t, ev=[e], n=len(e['ys'][0]), id=t['id'] + '#%d' % len(out))
            out.append(cur)
        else:
            cur['ev'].append(e)
    return out


def c21(c):
    for cfg in c.n(['BenchMC.cfg', 'BenchMC1.cfg'], ['BenchMC.cfg', 'BenchMC1.cfg', 'BenchMC_deep.cfg']):
        c.design('BenchMC', cfg, must_cover=('Observe', 'Train', 'Ask'))
    rng = c.rng('c21')
    S = lambda n: [int(s) for s in rng.integers(1 << 30, size=n)]
    tr = pmap(c21_series, S(c.n(350, 4000)))
    tr += [u for t in pmap(c21_discrete, S(c.n(350, 4000))) for u in split_targets(t)]
    c.validate('BenchTrace', tr, shards=8)
