"""Conformance drivers of the forecaster family: C09, C10, C11, C22, C24."""
import contextlib, copy, pickle
from inspect import signature
from sklearn.base import clone as skclone
from sklearn.linear_model import LinearRegression, Ridge
import numpy as np, pandas as pd
from core import NA, BAD, pmap
from fcst import *


# =============================================================== C09
def model_zoo(rng):
    """name -> (class, constructor parameters for setting 0, for setting 1, fixed constructor parameters)"""
    def two(space):
        keys = list(space)
        p0 = {k: space[k][int(rng.integers(len(space[k])))] for k in keys}
        ch = [k for k in keys if rng.random() < 0.6] or [keys[int(rng.integers(len(keys)))]]
        p1 = dict(p0)
        for k in ch:
            alt = [v for v in space[k] if not np.array_equal(v, p0[k])]
            p1[k] = alt[int(rng.integers(len(alt)))]
        return p0, p1
    base = dict(q_vect=[np.array([.1, .5, .9]), np.array([.25, .75])], val_ratio=[None, .25, .5])
    hour = dict(conditional_to_hour=[True, False])
    cap = dict(max_scengen_rows=[None, 25, 60], scengen_random_state=[None, 3])
    lgb = dict(n_estimators=[4, 7, 11], num_leaves=[3, 8, 20], learning_rate=[.1, .5], min_child_samples=[2, 5, 15], max_depth=[2, 4, 20])
    zoo = {
        'linear': (LinearForecaster, dict(kind=['linear', 'ridge'], **base, **hour, **cap), {}),
        'lgb': (LGBForecaster, dict(**lgb, **base, **cap), dict(n_jobs=1, n_jobs_predict=1)),
        'lgb_hour': (LGBForecaster, dict(n_estimators=[4, 7], **base, **hour), dict(n_jobs=1, n_jobs_predict=1)),
        'hybrid': (LGBMHybrid, dict(**lgb, **base, n_single=[0, 1, 2]), {}),
        'hybrid_multi': (LGBMHybrid, dict(n_estimators=[4, 7], n_single=[0, 1, 2], red_frac_multistep=[1, .5], **base, **hour), {}),
        'energy': (LGBEnergyAware, dict(**lgb, **base), dict(n_single=2)),
        'qrf': (QRF, dict(n_estimators=[3, 5], min_samples_leaf=[1, 5], min_samples_split=[2, 10], random_state=[0, 1], n_single=[0, 1, 2],
                          max_features=[1.0, None] if rng.random() < .4 else [1.0, 0.5], max_leaf_nodes=[None, 8], bootstrap=[True, False], **base), dict(parallel=False)),
        'qrf_par': (QRF, dict(n_estimators=[3, 5], min_samples_leaf=[1, 5], random_state=[0, 1], n_single=[1, 2]), dict(q_vect=np.array([.1, .5, .9]), max_parallel_workers=2)),
        'rff': (RFFRegression, dict(**base, **hour), None),
        'addrff': (AdditiveRFFRegression, dict(**base), None),
        'rff_drawn': (RFFRegression, dict(dim_kernel=[4, 9], std_kernel=[.1, .8], base_model=[LinearRegression, Ridge], **base), {}),
        'addrff_drawn': (AdditiveRFFRegression, dict(dim_kernel=[4, 9], std_kernel=[.1, .8], n_models=[1, 2], base_model=[LinearRegression, Ridge], **base), {}),
    }
    out = {}
    for k, (cls, space, fixed) in zoo.items():
        p0, p1 = two(space)
        if fixed is None:
            fixed = dict(W=rng.normal(size=(3, 8)), b=rng.uniform(0, 6, 8))
            if k == 'addrff':
                fixed['n_models'] = 2
        out[k] = (cls, p0, p1, fixed)
    return out


NT = dict(energy=(2, 2))


def c09_item(item):
    name, seed, hists = item
    rng = np.random.default_rng(seed)
    cls, p0, p1, fixed = model_zoo(rng)[name]
    pars = [p0, p1]
    ka, kb = NT.get(name, (3, 2))
    na = int(rng.integers(70, 110))
    D = {'A': data(rng, na, ka, idx=index(rng, na, ['h', '30min', '2h'][int(rng.integers(3))])),
         'B': data(rng, 64, kb, ynames=['z_%d' % i for i in range(kb)])}
    if name in ('linear', 'lgb', 'lgb_hour', 'hybrid') and rng.random() < .5:      # a target that repeats the one before
        D['A'][1].iloc[:, 1] = D['A'][1].iloc[:, 0].values
    pool, _ = data(rng, 14, 1, idx=index(rng, 14, ['h', '5h', '15min'][int(rng.integers(3))]))
    scale, tol = 1000, 3

    def fit(m, d):
        x, y = D[d]
        xc, yc = x.copy(), y.copy()
        np.random.seed(7)
        m.fit(x, y)
        mut = not (same_frame(x, xc) and same_frame(y, yc))
        D[d] = (xc, yc)
        return mut

    fresh = {}

    def fresh_ev(p, d):
        if (p, d) in fresh:
            return fresh[p, d]
        q = pars[p].get('q_vect', fixed.get('q_vect'))
        ev = dict(op='fresh', p=p, d=d, ycols=list(D[d][1].columns), levels=[lev(v) for v in q])
        try:
            m = cls(**pars[p], **fixed)
            mut = fit(m, d)
            xp = pool.copy()
            v, qh = m.predict(xp), m.predict_quantiles(xp)
            ev['obs'] = dict(ok=True, mutated=mut or not same_frame(xp, pool), cols=[str(c) for c in v.columns], qcols=qcols(qh), v=mat(v, scale), q=mat(qh, scale), alone=[])
            x, y = D[d]
            one = [0, 1, 2][:y.shape[1]] if name in ('lgb', 'lgb_hour') or (name == 'linear' and pars[p]['kind'] == 'linear') else list(range(min(pars[p]['n_single'], y.shape[1]))) if name == 'hybrid' else []
            for j in one:
                a = cls(**{**pars[p], **({'n_single': 1} if name == 'hybrid' else {})}, **fixed)
                np.random.seed(7)
                a.fit(x.copy(), y.iloc[:, [j]].copy())
                ev['obs']['alone'].append([j + 1, [r[0] for r in mat(a.predict(pool.copy()), scale)]])
        except Exception as ex:
            ev['obs'] = dict(ok=False, err=err_name(ex))
        fresh[p, d] = ev
        return ev
    pos = {t: i + 1 for i, t in enumerate(pool.index)}
    traces = []
    for hi, h in enumerate(hists):
        ev, need, cur, fitted = [], [], 0, None
        m = None
        try:
            m = cls(**pars[0], **fixed)
            for op in h:
                if op == 'set':
                    cur = 1 - cur
                    m.set_params(**{k: v for k, v in pars[cur].items() if not (pars[0][k] is pars[1][k])})
                    ev.append(dict(op='set', obs=dict(ok=True, mutated=False)))
                    g = m.get_params()
                    eq = lambda p: all(k in g and np.array_equal(g[k], p[k]) for k in p if k in g or k in signature(cls).parameters)
                    ev.append(dict(op='get', obs=dict(ok=True, mutated=False, p=cur if eq(pars[cur]) else -1)))
                elif op.startswith('fit'):
                    d = op[3:]
                    if (cur, d) not in need:
                        need.append((cur, d))
                    ev.append(dict(op='fit', d=d, obs=dict(ok=True, mutated=fit(m, d))))
                elif op == 'copy':
                    m = skclone(m) if not any(e['op'] == 'fit' for e in ev) else copy.deepcopy(m) if rng.random() < .5 else pickle.loads(pickle.dumps(m))     # nothing learned yet: a clone will do
                    ev.append(dict(op='copy', obs=dict(ok=True, mutated=False)))
                else:
                    kind = rng.integers(4)
                    rows = [int(rng.integers(14))] if kind == 0 else list(range(14)) if kind == 1 else sorted(int(r) for r in rng.choice(14, 5, replace=False)) if kind == 2 else [int(r) for r in rng.permutation(14)[:6]]
                    xp = pool.iloc[rows]
                    xc = xp.copy()
                    if op == 'pred':
                        v = m.predict(xp)
                        cols = [str(c) for c in v.columns]
                    else:
                        v = m.predict_quantiles(xp)
                        cols = qcols(v)
                    ev.append(dict(op=op, rows=[r + 1 for r in rows], obs=dict(ok=True, mutated=not same_frame(xp, xc), rows=[pos.get(t, 0) for t in v.index], cols=cols, v=mat(v, scale))))
        except Exception as ex:
            ev.append(dict(op=op if op in ('pred', 'predq') else 'fit' if op[:3] == 'fit' else op, d='', rows=[], obs=dict(ok=False, err=err_name(ex))))
        traces.append(dict(id='%s/%d/%s' % (name, seed % 1000, '-'.join(h)), npool=14, tol=tol, _pars=str(pars), ev=[fresh_ev(p, d) for p, d in need] + ev))
    return traces


def c09(c):
    c.design('ForecasterHist', 'ForecasterHist6.cfg')
    hists = [b['h'] for b in c.behaviours('ForecasterHist', 'ForecasterHist%d.cfg' % c.n(5, 6))]
    rng = c.rng('c09')
    nh, rounds = c.n(14, 40), c.n(2, 6)
    items = []
    for r in range(rounds):
        for name in model_zoo(np.random.default_rng(0)):
            # prefer the histories that refit, change parameters and copy
            w = np.array([1.0 + 2 * sum(o.startswith('fit') for o in h) + 2 * ('set' in h) + ('copy' in h) for h in hists])
            k = nh if name not in ('qrf_par',) else 4
            pick = rng.choice(len(hists), k, replace=False, p=w / w.sum())
            items.append((name, int(rng.integers(1 << 30)), [hists[i] for i in pick]))
    tr = [t for ts in pmap(c09_item, items) for t in ts]
    c.notes['classes'] = list(model_zoo(np.random.default_rng(0)))
    c.assumptions.append('global numpy seed fixed before each fit (multi-step rows of LGBMHybrid and random Fourier matrices are drawn from it)')
    c.validate('ForecasterTrace', tr, shards=8, keyfn=lambda t, s, cl: cl)


# =============================================================== C10
LV = [i for i in range(1, 100)]


def quant_models(rng, q, cond, vr, nx=3, **more):
    kw = dict(q_vect=q, val_ratio=vr, **more)
    ck = dict(conditional_to_hour=cond)
    rw = dict(W=rng.normal(size=(nx, 8)), b=rng.uniform(0, 6, 8))
    return {
        'linear': lambda: LinearForecaster(kind='linear', **kw, **ck),
        'ridge': lambda: LinearForecaster(kind='ridge', **kw, **ck),
        'lgb': lambda: LGBForecaster(n_estimators=4, n_jobs=1, n_jobs_predict=1, **kw, **ck),
        'hybrid': lambda: LGBMHybrid(n_estimators=4, n_single=1, **kw, **ck),
        'energy': lambda: LGBEnergyAware(n_estimators=4, n_single=3, **kw, **ck),
        'rff': lambda: RFFRegression(**rw, **kw, **ck),
        'addrff': lambda: AdditiveRFFRegression(2, **rw, **kw, **ck),
    }


def normalised(rng, n):
    """a formatter that normalises its targets, and the same without normalisation"""
    from pyforecaster.formatter import Formatter
    s = pd.DataFrame({'a': rng.integers(5, 40, n + 12).astype(float), 'b': rng.integers(-30, 30, n + 12).astype(float)},
                     index=index(rng, n + 12, ['h', '30min', '2h'][int(rng.integers(3))]))
    ratio = rng.random() < .5

    def make(norm):
        f = Formatter(augment=False)
        f.add_transform(['a', 'b'], lags=np.arange(1, 3))
        f.add_target_transform(['a'], lags=-np.arange(1, 4))
        if norm:
            f.add_target_normalizer('a', function='mean', agg_freq=s.index[3] - s.index[0], name='m')
            f.add_normalizing_fun(*(("df[t] / df['m']", "df[t] * df['m']") if ratio else ("df[t] - df['m']", "df[t] + df['m']")))
        return f
    f1, f0 = make(True), make(False)
    x1, y1 = f1.transform(s)
    x0, y0 = f0.transform(s)
    y0 = y0.loc[y1.index]
    return f1, x1, y1, y0


def c10_item(seed):
    rng = np.random.default_rng(seed)
    den = 100 if rng.random() < .7 else 1000
    S = 100000 // den
    vrs = [(None, -1, 1), (.5, 1, 2), (.25, 1, 4), (.75, 3, 4), (.1, 1, 10), (.3, 3, 10)]
    cond = bool(rng.random() < .7)
    if rng.random() < .15:
        q, levels, den, S = None, [1] + list(range(10, 91, 10)) + [99], 100, 1000
    else:
        levels = sorted(int(v) for v in rng.choice(LV, int(rng.integers(1, 6)), replace=False))
        if den == 1000:         # levels finer than a percent
            levels = sorted({10 * v + int(rng.choice([0, 5, 1, 9])) for v in levels})
        q = np.array(levels) / den
    vr, num, dv = vrs[int(rng.integers(len(vrs)))]
    n = int(rng.integers(60, 130))
    if num != -1 and (n * num) % dv == 0 and dv == 10:
        n += 1            # keep away from products that floating point may round below the integer
    normal = rng.random() < .15
    fm = None
    if normal:
        fm, x, y, yraw = normalised(rng, n)
        name, K = ['linear', 'ridge', 'lgb', 'rff', 'addrff'][int(rng.integers(5))], 3
    else:
        freq = ['h', 'h', '30min', '2h', '5h', '90min', '15min'][int(rng.integers(7))]
        idx = index(rng, n, freq, tz=['Europe/Zurich', None, None][int(rng.integers(3))])
        name = ['linear', 'ridge', 'lgb', 'hybrid', 'energy', 'rff', 'addrff'][int(rng.integers(7))]
        K = 3 if name in ('energy', 'hybrid') else int(rng.integers(1, 4))
        x, y = data(rng, n, K, idx=idx, ynames=['t_%d' % int(k) for k in rng.permutation(9)[:K]])
        yraw = y
    n = len(x)
    mk = quant_models(rng, q, cond, vr, x.shape[1], **(dict(formatter=fm) if normal else {}))[name]
    ev = []
    e = dict(op='fit', n=n, num=num, den=dv, cond=cond, levels=levels, ycols=[str(c) for c in y.columns], hours=[int(t.hour) for t in x.index])
    ev.append(e)
    try:
        m = mk()
        np.random.seed(1)
        m.fit(x.copy(), y.copy())
        before = m.predict(x.copy())
        e.update(y=mat(yraw, S), pred=mat(before, S), obs=dict(ok=True))
    except Exception as ex:
        e.update(obs=dict(ok=False, err=err_name(ex)))
        return dict(id='%s/%d' % (name, seed % 10000), tol=350 * den // 100, den=den, ev=ev)
    for kind in range(3):
        if kind == 0:
            xq = x
        elif kind == 1:
            xq = x.iloc[rng.permutation(n)[:int(rng.integers(1, 12))]]
        else:
            k = int(rng.integers(1, 30))
            if normal:
                xq = x.iloc[[int(rng.integers(n))]]
            else:
                xq, _ = data(rng, k, 1, idx=index(rng, k, ['h', '3h', '30min'][int(rng.integers(3))]))
        e = dict(op='quant', hours=[int(t.hour) for t in xq.index])
        try:
            df, arr, p = m.predict_quantiles(xq.copy()), m.predict_quantiles(xq.copy(), dataframe=False), m.predict(xq.copy())
            conv = m.quantiles_to_numpy(df)
            back = m.quantiles_to_df(arr, xq.index)
            # shares of the quantiles in bins whose edges no quantile is near to
            ed = np.unique(rng.integers(int(arr.min()) - 3, int(arr.max()) + 4, int(rng.integers(2, 8))) + .5)
            ed = ed[[bool(np.abs(arr - v).min() > 2 / S) for v in ed]]
            pmf = [[enc(v, len(levels)) for v in np.ravel(r)] for r in m.predict_pmf(xq.copy(), ed)] if len(ed) > 1 else []
            e['obs'] = dict(ok=True, edges=[int(round(v * S)) for v in ed], pmf=pmf, labels=[[str(a), lev(b)] for a, b in df.columns], index=bool(df.index.equals(xq.index) and list(df.columns.names) == ['target', 'quantile']),
                            shape=bool(np.shape(arr) == (len(xq), K, len(levels)) and np.shape(conv) == np.shape(arr)),
                            df=mat(df, S), arr=mat(arr, S), conv=mat(conv, S),
                            back=mat(back, S) if back.columns.equals(df.columns) and back.index.equals(df.index) else [], pred=mat(p, S))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    if num != -1 and not normal:
        nv = int(n * num // dv)
        e = dict(op='isolate')
        try:
            x2, y2 = x.copy(), y.copy()
            y2.iloc[n - nv:] = rng.integers(-500, 500, (nv, K))
            if name not in ('rff', 'addrff'):     # these scale the features by all rows
                x2.iloc[n - nv:] = rng.integers(-500, 500, (nv, x.shape[1]))
            m2 = mk()
            np.random.seed(1)
            m2.fit(x2, y2)
            e['obs'] = dict(ok=True, changed=list(range(n - nv + 1, n + 1)), before=mat(before, S), after=mat(m2.predict(x.copy()), S))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    return dict(id='%s/%d/cond=%s/vr=%s/n=%d' % (name, seed % 10000, cond, vr, n), tol=350 * den // 100, den=den, ev=ev)


def c10(c):
    rng = c.rng('c10')
    tr = pmap(c10_item, [int(s) for s in rng.integers(1 << 30, size=c.n(260, 2500))])
    c.validate('QuantTrace', tr, shards=8)


# =============================================================== C11
class Probe(ScenarioGenerator):
    """a forecaster written by a user: predicts 0 and, as second target, the id of the row it was given"""
    def __init__(self, random_state=None, **kw):
        super().__init__(conditional_to_hour=False, **kw)
        self.random_state = random_state
        self.seen = []

    def fit(self, x, y):
        x, y, xv, yv = self.train_val_split(x, y)
        ScenarioGenerator.fit(self, xv, yv)
        return self

    def predict(self, x, **kw):
        self.seen.append([int(v) for v in x['id']])
        return pd.DataFrame(np.c_[np.zeros(len(x)), x['id'].values], index=x.index, columns=['a', 'b'])

    def _predict_quantiles(self, x, **kw):
        return None


def c11_item(seed):
    rng = np.random.default_rng(seed)
    isdt = rng.random() < .8
    n = int(rng.integers(1, 90))
    num, den, vr = [(-1, 1, None), (1, 2, .5), (1, 4, .25)][int(rng.integers(3))]
    if (n * num) // den == 0:
        num, den, vr = -1, 1, None
    nv = n if num == -1 else n * num // den
    kind = rng.integers(4)
    if isdt:
        idx = index(rng, n)
        if kind == 1 and n > 3:      # repeated time stamps
            idx = idx[np.sort(rng.integers(0, n, n))]
        elif kind == 2:              # a few hours only, unevenly
            idx = pd.DatetimeIndex(sorted(pd.Timestamp('2024-01-01') + pd.Timedelta(days=int(d), hours=int(h)) for d, h in zip(rng.integers(0, 40, n), rng.choice([3, 3, 3, 3, 7, 8], n))))
        elif kind == 3:
            idx = idx[rng.permutation(n)]
    else:
        idx = pd.Index(np.arange(n) * 2) if kind < 2 else pd.Index(rng.permutation(n))
    cap = [-1, 1, nv - 1, nv, nv + 1, int(rng.integers(1, nv + 1)), int(rng.integers(1, nv + 1)), int(rng.integers(1, 24))][int(rng.integers(8))]
    cap = -1 if cap < -1 or cap == 0 else cap
    u = sorted(set(idx))
    keys = [u.index(t) + 1 for t in idx]
    x = pd.DataFrame({'id': np.arange(1, n + 1), 'z': rng.normal(size=n)}, index=idx)
    y = pd.DataFrame({'a': np.arange(1., n + 1), 'b': np.arange(1., n + 1)}, index=idx)
    size = min(cap, nv) if cap != -1 else nv
    ev = []
    seeds = [(0, -1), (-1, -1), (-1, 5), (5, -1), (5, 2), (int(rng.integers(100)), -1), (0, 5), (-1, 0)]
    for k in rng.permutation(len(seeds))[:5].tolist() * 2:
        srs, rs = seeds[k]
        e = dict(op='fit', srs=srs, rs=rs)
        try:
            np.random.seed(int(rng.integers(1 << 30)))
            m = Probe(random_state=None if rs == -1 else (rs if rng.random() < .5 else np.int64(rs)), q_vect=np.linspace(0, 1, max(size, 2)), val_ratio=vr,
                      max_scengen_rows=None if cap == -1 else (cap if rng.random() < .5 else np.int64(cap)),
                      scengen_random_state=None if srs == -1 else (srs if rng.random() < .5 else np.int32(srs)))
            got = {}
            real = m.scengen.fit

            def rec(errs, xx=None, **kw):
                got['errs'], got['x'] = errs.copy(), xx.copy()
            m.scengen.fit = rec
            m.fit(x.copy(), y.copy())
            d = np.atleast_2d(m.err_distr)
            key = dict(zip(idx, keys))
            dist = [int(round(v)) for v in (d[0] if size > 1 else d[0][:1])]
            e['obs'] = dict(ok=True, pred=m.seen[0], errs=[int(round(v)) for v in got['errs'].iloc[:, 0]], errx=[int(v) for v in got['x']['id']],
                            times=[key[t] for t in got['errs'].index], dist=dist, align=[int(round(v)) for v in (d[1] if size > 1 else d[1][:1])])
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    if cap != -1 and nv > cap:
        e = dict(op='refuse', what='features and targets with different time stamps', obs=dict(ok=True))
        try:
            m = Probe(q_vect=np.linspace(0, 1, 3), val_ratio=vr, max_scengen_rows=cap)
            m.scengen.fit = lambda *a, **k: None
            y2 = y.copy()
            y2.index = y2.index[::-1] if len(set(idx[n - nv:])) > 1 and not y2.index[::-1][n - nv:].equals(idx[n - nv:]) else [('k', i) for i in range(n)]
            m.fit(x.copy(), y2)
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    return dict(id='n=%d cap=%d vr=%s dt=%d kind=%d/%d' % (n, cap, vr, isdt, kind, seed % 1000), n=n, num=num, den=den, cap=cap, keys=keys, hours=[], ev=ev)


def c11_shares(seed):
    rng = np.random.default_rng(seed)
    n = int(rng.integers(160, 300))
    nh = int(rng.integers(2, 8))
    hrs = rng.choice(24, nh, replace=False)
    w = rng.dirichlet(np.ones(nh)) * .7 + .3 / nh
    hours = rng.choice(hrs, n, p=w)
    idx = pd.DatetimeIndex([pd.Timestamp('2024-01-01') + pd.Timedelta(days=i, hours=int(h)) for i, h in enumerate(hours)])
    if rng.random() < .4:       # hours are those of the user's clock
        idx = idx.tz_localize(['Europe/Zurich', 'Asia/Kolkata', 'America/New_York'][int(rng.integers(3))], ambiguous=True, nonexistent='shift_forward')
        hours = idx.hour.to_numpy()
    cap = int(rng.integers(1, n // 5)) if rng.random() < .7 else int(rng.integers(1, nh + 1))
    x = pd.DataFrame({'id': np.arange(1, n + 1)}, index=idx)
    y = pd.DataFrame({'a': np.arange(1., n + 1), 'b': np.arange(1., n + 1)}, index=idx)
    count, reps = [0] * 24, 60
    e = dict(op='shares', reps=reps)
    try:
        for s in range(reps):
            m = Probe(q_vect=np.linspace(0, 1, 3), max_scengen_rows=cap, scengen_random_state=s)
            m.scengen.fit = lambda *a, **k: None
            m.fit(x, y)
            for r in m.seen[0]:
                count[int(hours[r - 1])] += 1
        e['obs'] = dict(ok=True, count=count)
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(id='shares n=%d cap=%d/%d' % (n, cap, seed % 1000), n=n, num=-1, den=1, cap=cap, keys=list(range(1, n + 1)), hours=[int(h) for h in hours], ev=[e])


def c11_train(seed):
    rng = np.random.default_rng(seed)
    n = int(rng.integers(60, 100))
    x, y = data(rng, n, 2)
    vr = [None, .5][int(rng.integers(2))]
    cap = int(rng.integers(5, 25))
    mks = [lambda **k: LinearForecaster(kind='ridge', val_ratio=vr, **k), lambda **k: LGBForecaster(n_estimators=4, n_jobs=1, n_jobs_predict=1, val_ratio=vr, **k),
           lambda **k: LGBMHybrid(n_estimators=4, n_single=2, val_ratio=vr, **k), lambda **k: QRF(n_estimators=3, random_state=1, n_single=1, parallel=False, val_ratio=vr, **k)]
    ev = []
    for mk in mks:
        e = dict(op='train')
        try:
            a = mk(max_scengen_rows=cap).fit(x.copy(), y.copy()).predict(x.copy())
            b = mk().fit(x.copy(), y.copy()).predict(x.copy())
            e['obs'] = dict(ok=True, capped=mat(a, 1000), free=mat(b, 1000))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    for bad in (0, -1, -7, 1.5, '10', np.float64(3), [3], np.int64(0)):
        for mk in (lambda **k: ScenarioGenerator(**k), mks[0], mks[3]):
            e = dict(op='refuse', what='cap %r' % (bad,), obs=dict(ok=True))
            try:
                mk(max_scengen_rows=bad)
            except (ValueError, TypeError) as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
            ev.append(e)
    for good in (1, 10, np.int64(4), np.int32(2), None):
        e = dict(op='accept', what='cap %r' % (good,), obs=dict(ok=True))
        try:
            ScenarioGenerator(max_scengen_rows=good)
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    return dict(id='train/%d' % (seed % 1000), n=n, num=-1, den=1, cap=cap, keys=[], hours=[], ev=ev)


def c11(c):
    c.design('Subsample')
    rng = c.rng('c11')
    S = lambda k: [int(s) for s in rng.integers(1 << 30, size=k)]
    tr = pmap(c11_item, S(c.n(700, 6000))) + pmap(c11_shares, S(c.n(40, 300))) + pmap(c11_train, S(c.n(8, 60)))
    c.assumptions.append('the rows used are observed through predict (overridden) and scengen.fit (stand-in) during fit, and through err_distr')
    c.validate('SubsampleTrace', tr, shards=8)


# =============================================================== C22
from pyforecaster.forecaster import encode_categorical
from core import enc
import drv_formatter as DF


class CodeProbe(ScenarioGenerator):
    """a user's forecaster using the library's decorator; keeps what it receives"""
    @encode_categorical
    def fit(self, x, y):
        self.got = x.copy()
        self.target_cols = y.columns
        return self

    @encode_categorical
    def predict(self, x, **kw):
        self.got = x.copy()
        return pd.DataFrame(np.zeros((len(x), len(self.target_cols))), index=x.index, columns=self.target_cols)


NICE = {'a': ['Alpha', 'zz', '10', 'é', 'north'], 'b': ['beta', 'aa', '9', 'e', 'North'], 'c': ['Gamma', 'mm', '100', 'z', 'north ']}


def c22_item(item):
    seed, hist = item
    rng = np.random.default_rng(seed)
    v = int(rng.integers(5))
    nm = {k: NICE[k][v] for k in NICE}
    C = int(rng.integers(1, 3))
    small = C == 1 and all(len(h['cats']) <= 2 for h in hist if h['op'] == 'fit')
    kind = ['qrf', 'probe', 'qrf', 'linear' if small else 'probe'][int(rng.integers(4))]
    second = ['u', 'v', 'w']
    order = list(rng.permutation(['k0', 'k1'][:C] + ['z']))
    m = {'probe': lambda: CodeProbe(), 'linear': lambda: LinearForecaster(q_vect=np.array([.1, .9])),
         'qrf': lambda: QRF(n_estimators=1, bootstrap=False, random_state=0, parallel=False, n_single=int(rng.integers(0, 2)), q_vect=np.array([.1, .9]))}[kind]()
    ev = []
    val = {}

    def frame(cats, n_each):
        rows = []
        c2 = second if C == 2 else ['-']
        for a in cats:
            for b in c2:
                rows += [(a, b)] * n_each
        rows = [rows[i] for i in rng.permutation(len(rows))]
        idx = index(rng, len(rows), 'h')
        d = {'k0': [nm[r[0]] for r in rows], 'k1': [r[1] for r in rows], 'z': rng.integers(-9, 9, len(rows)).astype(float) if kind == 'probe' else np.zeros(len(rows))}
        x = pd.DataFrame(d, index=idx)[order]
        for k in ('k0', 'k1'):
            if k in x and rng.random() < .5:
                x[k] = x[k].astype(pd.CategoricalDtype(sorted(set(x[k]), key=lambda s: rng.random())))
        return x, [[nm[r[0]], r[1]][:C] for r in rows]
    for h in hist:
        cats = list(h['cats'])
        if h['op'] == 'fit':
            x, rows = frame(cats, 3)
            keys = sorted(set(map(tuple, rows)))
            val = dict(zip(keys, [int(k) * 10 for k in rng.permutation(50)[:len(keys)]]))
            y = pd.DataFrame({'t0': [float(val[tuple(r)]) for r in rows], 't1': [float(val[tuple(r)]) for r in rows]}, index=x.index)
            e = dict(op='fit', cats=rows, y=[int(k) for k in y['t0']], num=[int(k) for k in x['z']])
        else:
            x, rows = frame(cats, int(rng.integers(1, 3)))
            if rng.random() < .4:
                keep = rng.permutation(len(x))[:max(1, len(x) // 2)]
                x, rows = x.iloc[keep], [rows[i] for i in keep]
            e = dict(op='pred', cats=rows, num=[int(k) for k in x['z']])
        xc = x.copy()
        try:
            if h['op'] == 'fit':
                m.fit(x, y)
                e['obs'] = dict(ok=True)
            else:
                p = m.predict(x)
                e['obs'] = dict(ok=True, v=[rnd(k, 1) if abs(k - round(k)) < .01 else BAD for k in p['t0'].values.astype(float)])
            if kind == 'probe':
                g = m.got
                e['obs'].update(codes=[[rnd(k, 1) for k in r] for r in g[['k0', 'k1'][:C]].values.astype(float)],
                                num=[int(k) for k in g['z']] if g['z'].dtype == xc['z'].dtype and list(g.columns) == order else [])
        except Exception as ex:
            names = list(NICE and nm.values()) + second
            e['obs'] = dict(ok=False, err=err_name(ex), kind=type(ex).__name__, named=[s for s in names if "'%s'" % s in str(ex)])
        e['obs']['mutated'] = not same_frame(x, xc)
        ev.append(e)
        if not e['obs']['ok'] and h['op'] == 'fit':
            break
        if rng.random() < .15:
            m = copy.deepcopy(m)
    return dict(id='%s/%s/%d' % (kind, '-'.join(h['op'] + ''.join(h['cats']) for h in hist), seed % 1000), ncols=C, codes=kind == 'probe', tol=0, ev=ev)


def c22(c):
    b3 = [b['h'] for b in c.behaviours('EncHist', 'EncHist3.cfg')]
    b4 = [b['h'] for b in c.behaviours('EncHist', 'EncHist4.cfg')]
    rng = c.rng('c22')
    pick = b3 + [b4[i] for i in rng.choice(len(b4), c.n(400, 6000), replace=False)]
    tr = pmap(c22_item, [(int(s), h) for s, h in zip(rng.integers(1 << 30, size=len(pick)), pick)])
    c.validate('EncTrace', tr, shards=8)


# =============================================================== C24
def c24_route(seed):
    rng = np.random.default_rng(seed)
    tick = pd.Timedelta(['6h', '3h', '12h', '1h'][int(rng.integers(4))])
    dt = 1
    day = int(pd.Timedelta('24h') / tick)
    while True:
        trs, tgts = DF.gen_configs(rng, ['a', 'b', 'c'], [dt], tick, int(rng.integers(1, 3)), int(rng.integers(1, 3)), lagmax=int(rng.choice([3, 8])))
        fm = DF.build(rng, trs, tgts, tick, augment=False)
        x, y = fm.transform(DF.to_df(DF.gen_frame(rng, int(rng.integers(60, 90)), dt, ['a', 'b', 'c']), tick), time_features=True)
        if len(x) >= 30:
            break
    cls = ['qrf', 'hybrid'][int(rng.integers(2))]
    hasfm = bool(rng.random() < .8)
    rule = dict(method='periodic', period=day, tol=int(rng.choice([0, 0, 1])), lastlags=int(rng.choice([0, 0, 1, 3])), lastmin=int(rng.choice([0, 0, 2])), target=1)
    desc = {}
    for t in trs:
        desc.update(DF.descriptors(t, dt, tick))
    x = x.astype(float)
    K = y.shape[1]
    cal = [c for c in x.columns if c not in desc]
    mf = [str(k) for k in rng.permutation(cal)[:int(rng.integers(1, len(cal) + 1))]]
    ns = int(rng.integers(0, K + 1))
    feats = [c for c in x.columns if c in desc]
    drv = [feats[int(rng.integers(len(feats)))] for _ in range(K)]
    drv = drv[:ns] + [drv[-1]] * (K - ns)      # one model serves all the steps after the single ones
    S = 1
    exact = cls == 'qrf'
    Y = pd.DataFrame({y.columns[k]: 1000. * (k + 1) + (x[drv[k]].rank(method='dense') if exact else 50. * (x[drv[k]] > x[drv[k]].median())) for k in range(K)})[list(y.columns)]
    kw = dict(metadata_features=mf, n_single=ns, tol_period=str(tick * rule['tol']), keep_last_n_lags=rule['lastlags'],
              keep_last_seconds=int((tick * rule['lastmin']).total_seconds()), formatter=fm if hasfm else None, q_vect=np.array([.1, .5, .9]))
    e = dict(op='route', dt=dt, rule=rule, K=K, nsingle=ns, hasfm=hasfm, metafeats=mf, cal=cal, driver=[desc[d] for d in drv], exact=exact,
             varies=[bool(x[d].nunique() > 1) for d in drv], y=mat(Y, S), ycols=[str(k) for k in Y.columns], tol=1 if exact else 150)
    try:
        mk = {'qrf': lambda par: QRF(n_estimators=1, bootstrap=False, random_state=0, parallel=par, max_parallel_workers=2, **kw),
              'hybrid': lambda par: LGBMHybrid(n_estimators=10, learning_rate=1., min_child_samples=1, num_leaves=31, parallel=par, **kw)}[cls]
        m = mk(False)
        np.random.seed(0)
        m.fit(x.copy(), Y.copy())
        p = m.predict(x.copy())
        sens, senscal = [[] for _ in range(K)], [[] for _ in range(K)]
        xs = x.iloc[rng.permutation(len(x))[:25]]
        ps = m.predict(xs.copy()).values
        for col in x.columns:
            hit = np.zeros(K, bool)
            for v in (x[col].min() - 5, x[col].max() + 5, x[col].median() + .5):
                xp = xs.copy()
                xp[col] = v
                hit |= (np.abs(m.predict(xp).values - ps) > 1e-6).any(axis=0)
            for k in np.flatnonzero(hit):
                (sens[k].append(desc[col]) if col in desc else senscal[k].append(col))
        e['obs'] = dict(ok=True, cols=[str(k) for k in p.columns], v=mat(p, S), sens=sens, senscal=senscal)
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    ev = [e]
    if e['obs']['ok'] and (cls == 'hybrid' or seed % 12 == 0):
        e = dict(op='same', what='sequential and parallel evaluation differ')
        try:
            with in_place() if seed % 24 else contextlib.nullcontext():       # now and then with processes
                m2 = mk(True)
                np.random.seed(0)
                m2.fit(x.copy(), Y.copy())
                e['obs'] = dict(ok=True, a=mat(p, 1000), b=mat(m2.predict(x.copy()), 1000))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    if e['obs']['ok']:
        e = dict(op='same', what='a row depends on the other rows')
        try:
            r = rng.permutation(len(x))[:4]
            e['obs'] = dict(ok=True, a=mat(p.iloc[r], 1000), b=mat(pd.concat([m.predict(x.iloc[[i]]) for i in r]), 1000))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    return DF.trace('%s K=%d ns=%d fm=%s/%d' % (cls, K, ns, hasfm, seed % 10000), trs, tgts, ev)


def c24_native(seed):
    rng = np.random.default_rng(seed)
    K = int(rng.integers(1, 5))
    ns = int(rng.integers(0, K + 1))
    n = int(rng.integers(8, 30))
    levels = sorted(int(v) for v in rng.choice(LV, int(rng.integers(1, 6)), replace=False))
    x, _ = data(rng, n, 1, idx=index(rng, n, 'h'))
    y = pd.DataFrame(rng.integers(-400, 400, (n, K)).astype(float) + 1000 * rng.permutation(K), index=x.index, columns=['t%d' % k for k in rng.permutation(9)[:K]])
    if rng.random() < .4:
        levels = [int(v) for v in rng.permutation(levels)]        # in the order asked
    e = dict(op='native', trees=int(rng.integers(1, 3)), levels=levels, ycols=list(y.columns), y=mat(y, 100))
    q = np.array(levels) / 100
    own = rng.random() < .5
    try:
        m = QRF(n_estimators=e['trees'], bootstrap=False, min_samples_leaf=n, max_samples_leaf=None, random_state=0, parallel=bool(rng.random() < .05), max_parallel_workers=2,
                n_single=ns, q_vect=q if own else np.array([.1, .9])).fit(x.copy(), y.copy())
        xq = x.iloc[:int(rng.integers(1, n))]
        kw = {} if own else dict(quantiles=q if rng.random() < .5 else list(q))
        df, arr, p = m.predict_quantiles(xq.copy(), **kw), m.predict_quantiles(xq.copy(), dataframe=False, **kw), m.predict(xq.copy())
        e['obs'] = dict(ok=True, labels=[[str(a), lev(b)] for a, b in df.columns], shape=bool(np.shape(arr) == (len(xq), K, len(levels))), df=mat(df, 100), arr=mat(arr, 100), point=mat(p, 100))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(id='native K=%d ns=%d n=%d q=%d own=%s/%d' % (K, ns, n, len(levels), own, seed % 1000), tol=300, ev=[e])


def c24(c):
    rng = c.rng('c24')
    S = lambda k: [int(s) for s in rng.integers(1 << 30, size=k)]
    tr = pmap(c24_route, S(c.n(130, 1200)))
    c.validate('RouteTrace', tr, shards=8)
    c.validate('QuantTrace', pmap(c24_native, S(c.n(160, 1500))), shards=8)
