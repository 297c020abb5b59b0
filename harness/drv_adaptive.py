"""Conformance drivers of the recursive forecasters: C15 (Holt-Winters), C16 (adaptive Fourier / Kalman)."""
import copy, pickle
import numpy as np, pandas as pd
from core import NA, BAD, pmap, enc
from fcst import *
from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti

SC = 10000


def hw_state(m):
    s = m.get_states()
    return dict(a=rnd(s['a'], SC), b=rnd(s['b'], SC), s1=[rnd(v, SC) for v in s['s1']], s2=[rnd(v, SC) for v in s['s2']])


def labels_of(df):
    return [str(c) for c in df.columns]


def c15_item(item):
    seed, h = item
    for attempt in range(20):
        t = c15_try(np.random.default_rng([seed, attempt]), h)
        if t is not None:
            return t
    return None


def c15_try(rng, hist):
    kind = ['plain', 'plain', 'cov', 'multi'][int(rng.integers(4))]
    p1, p2 = int(rng.integers(2, 5)), int(rng.integers(2, 7))
    mods_n = [int(rng.integers(1, 6))] if kind != 'multi' else sorted(set(int(v) for v in rng.integers(1, 7, int(rng.integers(2, 4)))))
    H = mods_n[-1]
    lim = None if rng.random() < .5 else [-int(rng.integers(0, 9)), int(rng.integers(0, 9))]
    gains = [dict(al=int(rng.integers(1, 45)), be=int(rng.choice([0, 0, 5, 20])) if kind != 'multi' else 0, g1=int(rng.integers(1, 45)), g2=int(rng.integers(1, 45))) for _ in mods_n]
    levels = sorted(set(int(v) for v in rng.choice([0, 10, 25, 37, 50, 66, 80, 95, 100], 3)))
    qv = np.array(levels) / 100
    N = int(rng.integers(max(H + 3, max(p1, p2) + 1), 17))
    idx = index(rng, N + 40)
    lo = int(rng.integers(-40, 10))
    Y = rng.integers(lo, lo + 50, N + 40).astype(float)
    X = pd.DataFrame({'y': Y}, index=idx)
    if kind == 'cov':
        X['z'] = rng.integers(-9, 10, N + 40).astype(float)
        if rng.random() < .5:
            X = X[['z', 'y']]

    def single(n, g):
        return HoltWinters(periods=[p1, p2], target_name='y', n_sa=n, q_vect=qv, optimize_hyperpars=False, constraints=lim, verbose=False,
                           alpha=g['al'] / 100, beta=g['be'] / 100, gamma_1=g['g1'] / 100, gamma_2=g['g2'] / 100)
    if kind == 'multi':
        m = HoltWintersMulti(periods=[p1, p2], target_name='y', n_sa=H, q_vect=qv, optimize_hyperpars=False, optimize_submodels_hyperpars=False, constraints=lim,
                             models_periods=np.array(mods_n), alphas=np.array([g['al'] / 100 for g in gains]), gammas_1=np.array([g['g1'] / 100 for g in gains]),
                             gammas_2=np.array([g['g2'] / 100 for g in gains]))
    else:
        m = single(H, gains[0])
    big = 10 ** 9
    plim = dict(lo=-big if lim is None else lim[0] * SC, hi=big if lim is None else lim[1] * SC)
    t = dict(p1=p1, p2=p2, horizons=mods_n, mods=[dict(g, **plim) for g in gains], levels=levels, cov=kind == 'cov', kind=kind, tol=40, tolfit=60, tolend=300, repeats=40 if kind == 'multi' else 20, labels=['y_%d' % i for i in range(H)], ev=[])
    ev = t['ev']
    state = lambda: [hw_state(r) for r in (m.models if kind == 'multi' else [m])]
    sp = lambda ys: [NA if np.isnan(v) else int(round(v * SC)) for v in ys]

    def snapshot(m):
        return copy.deepcopy(m)
    # training
    tr = X.iloc[:N]
    e = dict(op='fit', y=sp(tr['y']))
    try:
        xc = tr.copy()
        m.fit(xc, xc)
        st = state()
        probe = X.iloc[[N]]
        mp = snapshot(m)
        pr = mp.predict(probe.copy())
        q = np.asarray(snapshot(m).predict_quantiles(probe.copy(), dataframe=False), dtype=float)
        quant = q[0] - pr.values[0][:, None]
        qdf = snapshot(m).predict_quantiles(probe.copy())
        same = np.allclose(qdf.values.reshape(q.shape), q, equal_nan=True) and [str(a) for a in qdf.columns.get_level_values(0)] == [c for c in labels_of(pr) for _ in levels]
        e['obs'] = dict(ok=True, err='', quant=mat(quant, SC), labels=labels_of(pr) if same else ['the quantile frame differs from the array'], state=st, mutated=not same_frame(xc, tr))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
        st = None
    ev.append(e)
    if st is None:
        return t
    pos, saved = N, None
    for o in hist:
        op = o['op']
        if kind == 'multi' and op in ('save', 'restore', 'part'):
            op = 'copy'
        if kind == 'cov' and op == 'gap':
            op, o = 'feed', dict(k=2)
        if kind == 'cov' and op in ('feed', 'quant'):
            op, o = 'cov', dict(k=o['k'] or 2)
        if op == 'quant':
            o = dict(k=int(rng.integers(1, 4)))
        if op == 'gap':
            o = dict(k=int(rng.integers(2, 4)))
        k = o['k']
        e = dict(op=op)
        try:
            if op in ('feed', 'gap', 'quant', 'cov'):
                b = X.iloc[pos:pos + k].copy()
                pos += k
                if op == 'gap':
                    b.iloc[int(rng.integers(k)), b.columns.get_loc('y')] = np.nan
                e['y'] = sp(b['y'])
                bc = b.copy()
                if op == 'cov':
                    s0 = m.get_states()
                    fs, ss = [], []
                    d = float(rng.integers(1, 4))
                    for i in range(3):
                        m.set_states(**s0)
                        b2 = b.copy()
                        b2['z'] = b2['z'] + i * d
                        fs.append(mat(m.predict(b2), SC))
                        ss.append(state())
                    e['obs'] = dict(ok=True, err='', f0=fs[0], f1=fs[1], f2=fs[2], states=ss)
                elif op == 'quant':
                    q = m.predict_quantiles(bc) if rng.random() < .5 else m.predict_quantiles(bc, dataframe=False)
                    ok = isinstance(q, np.ndarray) or q.index.equals(b.index)
                    e['obs'] = dict(ok=True, err='', rows=mat(q, SC), index=bool(ok), mutated=not same_frame(bc, b), state=state())
                else:
                    e['op'] = 'pred'
                    f = m.predict(bc)
                    e['obs'] = dict(ok=True, err='', rows=mat(f, SC), labels=labels_of(f), index=bool(f.index.equals(b.index)), mutated=not same_frame(bc, b), state=state())
            elif op == 'save':
                saved = m.get_states()
                e['obs'] = dict(ok=True, err='', state=state())
            elif op == 'restore':
                m.set_states(**saved)
                e['obs'] = dict(ok=True, err='', state=state())
            elif op == 'part':
                va, v1 = int(rng.integers(-20, 20)), rng.integers(-5, 6, p1)
                e['set'] = dict(a=va * SC, s1=[int(v) * SC for v in v1])
                part = dict(a=float(va), s1=v1.astype(float))
                if rng.random() < .6:
                    # no level, no trend and no season are states too
                    e['set'].update(a=0, b=0, s1=[0] * p1)
                    part = dict(a=[0., 0][int(rng.integers(2))], b=0., s1=np.zeros(p1))
                    if rng.random() < .5:
                        vb = int(rng.integers(-2, 3))
                        part['b'], e['set']['b'] = vb, vb * SC
                m.set_states(**part)
                e['obs'] = dict(ok=True, err='', state=state())
            elif op == 'copy':
                m = copy.deepcopy(m) if rng.random() < .5 else pickle.loads(pickle.dumps(m))
                e['obs'] = dict(ok=True, err='', state=state())
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
        if not e['obs']['ok']:
            break
    # keep what fits the specification's 32-bit arithmetic
    lim_ = 180 * SC

    def small(o):
        if isinstance(o, dict):
            return all(small(v) for v in o.values())
        if isinstance(o, list):
            return all(small(v) for v in o)
        return not isinstance(o, int) or isinstance(o, bool) or o in (NA, BAD) or abs(o) < lim_
    return t if all(small(x.get('obs')) for x in ev) else None


def c15(c):
    c.design('HwHist', 'HwHist3.cfg', must_cover=('Feed', 'Restore', 'Save'))
    b4 = c.behaviours('HwHist', 'HwHist4.cfg')
    b5 = c.behaviours('HwHist', 'HwHist5.cfg') if c.thorough else []
    rng = c.rng('c15')
    pick = [b4[i] for i in rng.permutation(len(b4))[:c.n(700, len(b4))]] + [b5[i] for i in rng.permutation(len(b5))[:8000]]
    tr = [t for t in pmap(c15_item, [(int(s), b) for s, b in zip(rng.integers(1 << 30, size=len(pick)), pick)]) if t]
    for i, t in enumerate(tr):
        t['id'] = i
    if len(tr) < .8 * len(pick):
        c.notes['dropped_traces'] = len(pick) - len(tr)
    c.validate('HwTrace', tr, shards=8)


# =============================================================== C16
from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK, FK_multi, StatefulForecaster
from pyforecaster.forecasting_models import fast_adaptive_models as fam


def kernel(m, nh):
    """weights of the projection onto the constant and the first nh harmonics of a season of m steps"""
    return [int(round(10 ** 6 / m * (1 + 2 * sum(np.cos(2 * np.pi * k * j / m) for k in range(1, nh + 1))))) for j in range(m)]


def es_par(m, n, al, om, nh, period):
    return dict(kind='es', m=m, n=n, period=period, al=al, om=om, kappa=0, rho=0, D=kernel(m, min(nh, m // 2)))


def fk_par(m, n, om, nh, period, r, q):
    return dict(kind='fk', m=m, n=n, period=period, al=0, om=om, kappa=int(round(q / r * 10000)), rho=int(round(1000 / r * 10000)), D=kernel(m, min(nh, m // 2)))


def adapt_model(rng, force=None):
    """a forecaster, its parameters for the specification, the rows for which the specification is exact"""
    kind = force or ['es', 'es', 'fk', 'multi', 'multi'][int(rng.integers(5))]
    n = int(rng.integers(1, 5))
    levels = sorted(set(int(v) for v in rng.choice([0, 10, 25, 37, 50, 66, 80, 95, 100], 3)))
    kw = dict(target_name='y', n_sa=n, q_vect=np.array(levels) / 100, optimize_hyperpars=False, verbose=False)
    R = [.05, .1, .2, .5, .8]

    def es(lo=2):
        m = int(rng.integers(max(lo, n), 13))
        al, om, nh = int(rng.integers(5, 100)), int(rng.integers(2, 100)), int(rng.integers(1, 7))
        period = int(rng.integers(1, m + 1)) if rng.random() < .6 else None
        return dict(kw, m=m, alpha=al / 100, omega=om / 100, n_harmonics=nh, periodicity=period), es_par(m, n, al * 100, om * 100, nh, period or n), 10 ** 6

    def fk(lo=5):
        m = int(rng.integers(max(lo, n + 3), 14))
        om, nh = int(rng.integers(2, 100)), int(rng.integers(1, 7))
        r, q = float(rng.choice(R)), float(rng.choice(R))
        period = int(rng.integers(1, m + 1)) if rng.random() < .6 else None
        return dict(kw, m=m, omega=om / 100, n_harmonics=nh, periodicity=period, r=r, q=q), fk_par(m, n, om * 100, nh, period or n, r, q), m
    if kind in ('es', 'fk'):
        k, p, rows = (es if kind == 'es' else fk)()
        return kind, (Fourier_es if kind == 'es' else FK)(**k), [p], rows, n, levels, dict(rho=10 ** 8, kappa=0)
    P = int(rng.integers(2, 5))
    r, q = float(rng.choice(R)), float(rng.choice(R))
    m = int(rng.integers(max(8, n + 3), 25))
    base = FK if rng.random() < .3 else Fourier_es
    mix = dict(rho=int(round(1000 / r * 10000)), kappa=int(round(q / r * 10000)))
    if rng.random() < .7:
        subs = [(fk if base is FK else es)() for _ in range(P)]
        mod = FK_multi(m=m, n_predictors=P, base_predictor=base, r=r, q=q, periodicity=int(rng.integers(1, m)), optimize_submodels_hyperpars=False, submodels_pars=[s[0] for s in subs], **kw)
        return kind, mod, [s[1] for s in subs], min([m] + [s[2] for s in subs]), n, levels, mix
    mod = FK_multi(m=m, n_predictors=P, r=r, q=q, optimize_submodels_hyperpars=False, **kw)
    return kind, mod, [es_par(int(e.m), n, 8000, 9900, 3, n) for e in mod.models], m, n, levels, mix


def series(rng, N):
    k = int(rng.integers(4))
    if k == 0:
        return rng.integers(-30, 31, N)
    if k == 1:      # a season with noise
        p = int(rng.integers(2, 13))
        return np.resize(rng.integers(-25, 26, p), N) + rng.integers(-3, 4, N)
    if k == 2:      # long runs of equal values
        return np.repeat(rng.integers(-30, 31, N), rng.integers(1, 6, N))[:N]
    return np.where(np.arange(N) < rng.integers(0, N), 0, rng.integers(0, 31, N))


def c16_item(item):
    seed, hist = item
    rng = np.random.default_rng(seed)
    kind, m, pars, rows, n, levels, mix = adapt_model(rng)
    two = rng.random() < .3
    L = 200
    Y = series(rng, L).astype(float)
    idx = index(rng, L)
    X = pd.DataFrame({'y': Y}, index=idx)
    if two:
        X['z'] = rng.normal(size=L)
        if rng.random() < .5:
            X = X[['z', 'y']]
    t = dict(n=n, pars=pars, mix=mix, levels=levels, exact=True, tol=40, tolmix=150, labels=['y_t+%d' % i for i in range(1, n + 1)], ev=[], _kind=kind)
    pos, old = 0, None
    top = min(rows, 16)
    for o in hist:
        op = o['op']
        e = dict(op=op, y=[])
        try:
            if op == 'fit':
                N = int(rng.integers(n + 2, max(top, n + 2) + 1))
                b = X.iloc[pos:pos + N]
                pos += N
                e['y'] = [int(v) for v in b['y']]
                bc = b.copy()
                m.fit(bc)
                probe = X.iloc[[pos + 1]]
                q = np.asarray(m.predict_quantiles(probe.copy(), dataframe=False), dtype=float)
                e['obs'] = dict(ok=True, err='', quant=mat(q[0] - m.predict(probe.copy()).values[0][:, None], 1000), mutated=not same_frame(bc, b))
            elif op == 'copy':
                m = copy.deepcopy(m) if rng.random() < .5 else pickle.loads(pickle.dumps(m))
                e['obs'] = dict(ok=True, err='')
            else:
                k = int(rng.integers(1, top + 1))
                if o['x'] == 1:
                    b = X.iloc[pos:pos + k]
                elif o['x'] == 2 or old is None:
                    s = int(rng.integers(0, L - 20))
                    b = X.iloc[s:s + k]
                else:
                    b = old.copy()
                    c = int(rng.integers(0, len(b)))
                    b.iloc[c:, b.columns.get_loc('y')] = rng.integers(-30, 31, len(b) - c)
                old = b
                e['y'] = [int(v) for v in b['y']]
                bc = b.copy()
                if op == 'pred':
                    f = m.predict(bc)
                    e['obs'] = dict(ok=True, err='', rows=mat(f, 1000), labels=labels_of(f), index=bool(f.index.equals(b.index)), mutated=not same_frame(bc, b))
                else:
                    f = m.predict_quantiles(bc) if rng.random() < .5 else m.predict_quantiles(bc, dataframe=False)
                    e['obs'] = dict(ok=True, err='', rows=mat(f, 1000), index=isinstance(f, np.ndarray) or bool(f.index.equals(b.index)), mutated=not same_frame(bc, b))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        t['ev'].append(e)
        if not e['obs']['ok']:
            break
    # the recent history at some row
    w = [int(v) for v in rng.integers(-99, 99, int(rng.integers(1, 9)))]
    y = [int(v) for v in rng.integers(-99, 99, int(rng.integers(1, 20)))]
    i = int(rng.integers(len(y)))
    e = dict(op='window', w=w, y=y, i=i + 1)
    try:
        wa, ya = np.array(w, dtype=float), np.array(y, dtype=float)
        g = (fam.generate_recent_history if rng.random() < .5 else StatefulForecaster.generate_recent_history)(ya, wa, max(0, i - len(w) + 1), i)
        e['obs'] = dict(ok=True, err='', w=[int(v) for v in g], mutated=not (np.array_equal(wa, w) and np.array_equal(ya, y)))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    t['ev'].append(e)
    t['id'] = '%s n=%d m=%s %s/%d' % (kind, n, [p['m'] for p in pars], '-'.join(o['op'] for o in hist), seed % 10000)
    return t


def c16_long(seed):
    rng = np.random.default_rng(seed)
    kind, m, pars, rows, n, levels, mix = adapt_model(rng, ['fk', 'multi'][int(rng.integers(2))])
    N, L = int(rng.integers(30, 90)), 160
    idx = index(rng, L)
    y = series(rng, L).astype(float)
    if rng.random() < .3:
        y[:int(rng.integers(5, 40))] = 0
    X = pd.DataFrame({'y': y}, index=idx)
    k = int(rng.integers(1, 40))
    b = X.iloc[N:N + k]
    cut = int(rng.integers(0, k + 1))
    c = b.copy()
    c.iloc[cut:, 0] = rng.integers(-30, 31, k - cut)
    e = dict(op='long', y=[], cut=cut)
    try:
        m.fit(X.iloc[:N].copy())
        if rng.random() < .3:
            m.fit(X.iloc[:N].copy())
        cp = copy.deepcopy(m) if rng.random() < .5 else pickle.loads(pickle.dumps(m))
        a = mat(m.predict(b.copy()), 1000)
        pre = mat(m.predict(c.copy()), 1000)[:cut]
        q = mat(m.predict_quantiles(b.copy()), 1000)
        again = mat(m.predict(b.copy()), 1000)
        ex = [mat(s.predict(b.copy()), 1000) for s in m.models] if kind == 'multi' else []
        e['obs'] = dict(ok=True, err='', a=a, prefix=pre, q=q, again=again, copied=mat(cp.predict(b.copy()), 1000), experts=ex)
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(n=n, pars=pars, mix=mix, levels=levels, exact=False, tol=10, tolmix=0, labels=[], ev=[e], id='long %s n=%d m=%s N=%d/%d' % (kind, n, [p['m'] for p in pars], N, seed))


def c16(c):
    c.design('FourierMC', c.n('FourierMC.cfg', 'FourierMC_deep.cfg'), must_cover=('Obs', 'Train'))
    hs = [b for b in c.behaviours('AdaptHist', 'AdaptHist%d.cfg' % c.n(4, 5))]
    rng = c.rng('c16')
    pick = [hs[i] for i in rng.permutation(len(hs))[:c.n(420, 4000)]]
    tr = pmap(c16_item, [(int(s), b) for s, b in zip(rng.integers(1 << 30, size=len(pick)), pick)])
    tr += pmap(c16_long, [int(s) for s in rng.integers(1 << 30, size=c.n(150, 1500))])
    c.validate('AdaptTrace', tr, shards=8)
