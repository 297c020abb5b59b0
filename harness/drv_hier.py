"""Conformance driver of hierarchical reconciliation: C17."""
import copy
import numpy as np, pandas as pd
from core import NA, BAD, pmap
from fcst import *
from pyforecaster.metrics import crps, reliability
from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation


def div(x, d):
    return np.where(x >= 0, (x + d // 2) // d, -((d // 2 - x) // d))


class Tree:
    """a hierarchy printed by HierMC with names; arrays over all series in the order 1..n"""
    def __init__(self, h, rng):
        self.h = h
        self.keys = [e['key'] - 1 for e in h]
        n = self.n = max([max(e['ch']) for e in h] + [e['key'] for e in h])
        pool = ['b%d' % i for i in range(n)] + ['agg', 'all', 'north', 'Z', '1', 's_2']
        if rng.random() < .5:
            # names which contain each other
            pool = ['m', 'm1', 'm10', 'm11', 'm1_0', 'am1', 'M1', '1', '10', 'm ']
        self.names = [str(v) for v in rng.permutation(pool)[:n]]
        self.dict = {self.names[e['key'] - 1]: [self.names[c - 1] for c in e['ch']] for e in h}
        self.bottoms = [i for i in range(n) if i not in self.keys]
        ch = {e['key'] - 1: [c - 1 for c in e['ch']] for e in h}
        leaves = lambda k: [k] if k not in ch else [b for c in ch[k] for b in leaves(c)]
        self.A = np.array([[1 if b in leaves(k) else 0 for b in self.bottoms] for k in self.keys])

    def full(self, bottoms):
        """coherent values of all series (last axis) from those of the bottoms"""
        out = np.zeros(bottoms.shape[:-1] + (self.n,))
        out[..., self.bottoms] = bottoms
        out[..., self.keys] = bottoms @ self.A.T
        return out


def cov2(e):
    return len(e) * (e.T @ e) - np.outer(e.sum(0), e.sum(0))


def shrunk(c, D):
    s = c[np.ix_(D, D)]
    return 9 * len(D) * s + np.eye(len(D), dtype=np.int64) * np.trace(s)


def solve(M, r):
    w = np.linalg.lstsq(np.asarray(M, dtype=float), np.asarray(r, dtype=float), rcond=None)[0]
    return [rnd(v, 1000) for v in w]


def witness(tree, method, errs, yhat, rec):
    """multipliers that explain the correction (the specification only checks them)"""
    A, k, b = tree.A, tree.keys, tree.bottoms
    errs, yhat = errs.astype(np.int64), yhat.astype(np.int64)
    if method == 'bayes':
        c = cov2(errs)
        nu = len(k)
        cu = 10 * len(b) * c[np.ix_(k, k)] if nu == 1 else len(b) * shrunk(c, k)
        kb = nu * shrunk(c, b)
        d = max(np.abs(kb).max(), np.abs(cu).max()) // 2000 + 1
        G = div(kb, d) @ A.T
        M = div(cu, d) + A @ G
        return [solve(M, 1000. * (y[k] - A @ y[b])) for y in yhat]
    W = np.eye(tree.n, dtype=np.int64) if method == 'dummy' else shrunk(cov2(errs), list(range(tree.n)))
    V = W[:, k] - W[:, b] @ A.T
    V = div(V, np.abs(V).max() // 2000 + 1)
    return [solve(V, 1000. * y - r) for y, r in zip(yhat, rec)]


def c17_item(item):
    seed, h = item
    rng = np.random.default_rng(seed)
    t = Tree(h, rng)
    ev = []
    m = HierarchicalReconciliation(copy.deepcopy(t.dict))
    e = dict(op='levels')
    try:
        lv = m.get_hierarchy_levels()
        un = m.get_unrolled_hierarchy()
        e['obs'] = dict(ok=True, err='', levels=[int(lv.loc[s, 'level']) for s in t.names] if len(lv) == t.n else [],
                        leaves=[[t.names.index(str(s)) + 1 for s in np.atleast_1d(un[t.names[k]])] for k in t.keys])
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    ev.append(e)
    for method in ['dummy', 'minT', 'bayes']:
        n, R = int(rng.integers(5, 9)), int(rng.integers(1, 4))
        errs = rng.integers(-9, 10, (n, t.n))
        errs[:, 0] += rng.integers(-2, 3) * errs[:, -1]           # correlated errors
        if rng.random() < .3:
            errs[:, int(rng.integers(t.n))] *= 3
        y = t.full(rng.integers(-40, 41, (n, len(t.bottoms))))
        yhat = np.where(rng.random((R, 1)) < .3, t.full(rng.integers(-20, 21, (R, len(t.bottoms)))), rng.integers(-50, 51, (R, t.n)))
        idx, idr = index(rng, n), index(rng, R)
        frame = lambda a, i: pd.DataFrame(a, index=i, columns=t.names)
        m = HierarchicalReconciliation(copy.deepcopy(t.dict), method=method)
        o1, o2 = [rng.permutation(t.n) if rng.random() < .6 else np.array(t.keys + t.bottoms) for _ in range(2)]
        Y, P = frame(y, idx).iloc[:, o1].astype(float), frame(y - errs, idx).iloc[:, o1].astype(float)
        Q = frame(yhat, idr).iloc[:, o2].astype(float)
        Y0, P0, Q0 = Y.copy(), P.copy(), Q.copy()
        e = dict(op='rec', method=method, cols=list(Q.columns), errs=[[int(v) for v in r] for r in errs], yhat=[[int(v) for v in r] for r in yhat])
        try:
            m.fit_reconciliation(Y, P, m.hierarchy)
            rec = m.reconcile(Q)
            v = rec[t.names].values.astype(float)
            e['obs'] = dict(ok=True, err='', cols=[str(c) for c in rec.columns], index=bool(rec.index.equals(Q.index)), rows=mat(v, 1000),
                            mutated=not (same_frame(Y, Y0) and same_frame(P, P0) and same_frame(Q, Q0)), wit=witness(t, method, errs, yhat, v * 1000) if np.isfinite(v).all() else [])
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    return dict(h=h, n=t.n, ev=ev, id='rec %s/%d' % (t.dict, seed % 10000))


def mse(x, t, agg_index=None, **kwargs):
    """a score of the user, in the form of those of pyforecaster.metrics"""
    return ((x - t) ** 2).mean().to_frame(1).T


def c17_kpi(m, t, x, y, steps, levels, rng):
    kind = ['mse', 'crps', 'reliability'][int(rng.integers(3))]
    how = ['reconciled', 'vanilla'][int(rng.integers(2))]
    order = sorted(steps)
    e = dict(op='kpi', kind=kind, steps=order, levels=levels, rows=int(len(x) // t.n))
    try:
        qv = np.array(levels) / 100
        hat = m.predict(x.copy(), method=how) if kind == 'mse' else m.predict_quantiles(x.copy(), method=how)
        x0, y0, h0 = x.copy(), y.copy(), hat.copy()
        kpi = m.compute_kpis(hat, x, y, mse) if kind == 'mse' else m.compute_kpis(hat, x, y, crps if kind == 'crps' else reliability, alphas=m.q_vect)
        mut = not (same_frame(x, x0) and same_frame(y, y0) and same_frame(hat, h0))
        idx = y.index[np.asarray(x['name'] == t.names[0])]
        truth = {s: y.loc[np.asarray(x['name'] == s)].loc[idx] for s in t.names}
        k = dict(mse=10, crps=100, reliability=100)[kind]
        o = dict(ok=True, err='', mutated=bool(mut), lv=[int(v) for v in kpi.index])
        o['truth'] = [mat(np.stack([truth[s][st].values for s in t.names], axis=1), k) for st in order]
        if kind == 'mse':
            o['hat'] = [mat(hat.loc[idx, [(s, st) for s in t.names]].values, k) for st in order]
        else:
            hh = {(a, b, lev(q)): v for (a, b, q), v in hat.loc[idx].items()}
            o['hat'] = [[[[rnd(hh[(s, st, lev(q))].iloc[r], k) for q in qv] for s in t.names] for r in range(len(idx))] for st in order]
        if kind == 'reliability':
            o['steps'] = sorted({c[0] for c in kpi.columns})
            kk = {(a, lev(b)): v for (a, b), v in kpi.items()}
            o['kpi'] = [[[rnd(kk[(st, lev(q))].iloc[r], 1000) for q in qv] for st in order] for r in range(len(kpi))]
        else:
            flat = {(c[0] if isinstance(c, tuple) else c): v for c, v in kpi.items()}
            o['steps'] = sorted(flat)
            o['kpi'] = [[rnd(flat[st].iloc[r], dict(mse=100, crps=10000)[kind]) for st in order] for r in range(len(kpi))]
        e['obs'] = o
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return e


def c17_full(item):
    seed, h = item
    rng = np.random.default_rng(seed)
    t = Tree(h, rng)
    method = ['dummy', 'minT', 'bayes'][int(rng.integers(3))]
    K, R = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    N = 24 * int(rng.integers(2, 4)) + int(rng.integers(0, 9))
    idx = pd.date_range(pd.Timestamp('2023-01-01') + pd.Timedelta(hours=int(rng.integers(0, 5000))), periods=N + 40, freq='h')
    S = t.full(rng.integers(0, 30, (N + 40, len(t.bottoms))) + (idx.hour.values[:, None] % 5) * 3)
    F = rng.integers(-20, 20, (N + 40, t.n, 2))
    steps = ['y_%d' % k for k in rng.permutation(12)[:K]]
    fs = {s: pd.DataFrame({'now': S[:, i], 'f': F[:, i, 0], 'g': F[:, i, 1], 'name': s}, index=idx) for i, s in enumerate(t.names)}
    ts = {s: pd.DataFrame({st: np.roll(S[:, i], -1 - k) for k, st in enumerate(steps)}, index=idx) for i, s in enumerate(t.names)}

    def frames(rows, order, inter):
        x, y = pd.concat([fs[s].iloc[rows] for s in order]), pd.concat([ts[s].iloc[rows] for s in order])
        if inter:        # samples of all series at each time, one after the other
            p = np.arange(len(x)).reshape(len(order), -1).T.ravel()
            x, y = x.iloc[p], y.iloc[p]
        return x, y
    order = lambda: [str(s) for s in rng.permutation(t.names)]
    otr = order()
    x, y = frames(np.arange(N), otr, rng.random() < .3)
    rows = N + np.sort(rng.permutation(30)[:R])
    xq, yq = frames(rows, order() if rng.random() < .6 else otr, rng.random() < .3)
    levels = [10, 50, 90] if rng.random() < .5 else [25, 60]
    qv = np.array(levels) / 100
    base = LinearForecaster
    m = HierarchicalReconciliation(copy.deepcopy(t.dict), method=method, q_vect=qv, n_scenarios=4, base_forecaster_class=base, val_ratio=None)
    e = dict(op='full', steps=steps, hours=[int(v) for v in idx[rows].hour], trhours=[int(v) for v in idx[:N].hour], levels=levels)
    try:
        x0, y0, q0 = x.copy(), y.copy(), xq.copy()
        if rng.random() < .35:      # used before, on other data
            xo, yo = frames(np.arange(30 + int(rng.integers(10))), order(), False)
            m.fit(xo, (yo * 2 + 5)[list(rng.permutation(steps)) if rng.random() < .5 else steps])
        m.fit(x, y)
        van, rec = m.predict(xq, method='vanilla'), m.predict(xq)
        trv, trr = m.predict(x, method='vanilla'), m.predict(x)
        cube = lambda d, i: [mat(d.loc[i, [(s, st) for s in t.names]].values, 1000) for st in steps]
        flat = lambda d, i: mat(d.loc[i, [(s, st) for st in steps for s in t.names]].values, 1000)
        iq, itr = idx[rows], idx[:N]
        truth = pd.concat(ts, axis=1).loc[itr]
        # models trained on their own
        own = {}
        for i, s in enumerate(t.names):
            sel = (x0['name'] == s) if i in t.keys else x0['name'].isin([t.names[b] for b in t.bottoms])
            mm = base(q_vect=qv, val_ratio=None).fit(x0.loc[sel].drop(columns='name'), y0.loc[sel])
            own[s] = (mm.predict(fs[s].iloc[rows].drop(columns='name')), mm.predict_quantiles(fs[s].iloc[rows].drop(columns='name')))
        single = pd.concat({s: own[s][0] for s in t.names}, axis=1)
        # each step reconciled on its own
        fresh = {}
        for st in steps:
            r = HierarchicalReconciliation(copy.deepcopy(t.dict), method=method)
            part = lambda d: pd.DataFrame({s: d[(s, st)] for s in t.names})
            r.fit_reconciliation(part(truth), part(trv), r.hierarchy)
            fresh[st] = r.reconcile(part(van))
        fr = pd.concat({(s, st): fresh[st][s] for s in t.names for st in steps}, axis=1)
        np.random.seed(5)
        sc = m.predict_scenarios(xq)
        np.random.seed(5)
        q = m.predict_quantiles(xq)
        scv = m.predict_scenarios(xq, method='vanilla')
        qs = m.predict_quantiles(xq, method='vanilla')
        lab = []
        want = {(s, st) for s in t.names for st in steps}
        for nm, d in (('base', van), ('reconciled', rec)):
            if set(d.columns) != want or len(d.columns) != len(want):
                lab.append(nm + ' columns')
            if not d.index.equals(iq):
                lab.append(nm + ' index')
        for nm, d in (('scenarios', sc), ('base scenarios', scv)):
            if {(a, c) for a, b, c in d.columns} != want or len(d.columns) != 4 * len(want) or not d.index.equals(iq):
                lab.append(nm)
        for nm, d in (('quantiles', q), ('base quantiles', qs)):
            if {(a, b, lev(c)) for a, b, c in d.columns} != {(a, b, lev(c)) for a, b in want for c in qv} or len(d.columns) != len(qv) * len(want) or not d.index.equals(iq):
                lab.append(nm)
        if not lab:
            sflat = lambda d: [mat(d.loc[iq, [(s, k, st) for st in steps for s in t.names]].values, 1000) for k in sorted({b for a, b, c in d.columns})]
            qq = np.stack([[q.loc[i, [(s, st, v) for v in qv]].values for st in steps for s in t.names] for i in iq])
            ql = [(s, st, v) for s in t.names for st in steps for v in qv]
            o = dict(ok=True, err='', labels='', mutated=not (same_frame(x, x0) and same_frame(y, y0) and same_frame(xq, q0)),
                     van=cube(van, iq), rec=cube(rec, iq), single=cube(single, iq), fresh=cube(fr, iq), scen=sflat(sc), scenvan=sflat(scv),
                     errs=flat(truth - trr[truth.columns], itr), errsvan=flat(truth - trv[truth.columns], itr),
                     quant=[mat(v, 1000) for v in qq], qvan=mat(qs[ql].loc[iq].values, 1000),
                     qsingle=mat(pd.concat({s: own[s][1] for s in t.names}, axis=1)[ql].loc[iq].values, 1000))
        else:
            o = dict(ok=True, err='', labels=', '.join(lab), mutated=False)
        e['obs'] = o
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    ev = [e] + ([c17_kpi(m, t, xq, yq, steps, levels, rng) for _ in range(2)] if e['obs']['ok'] else [])
    return dict(h=h, n=t.n, ev=ev, id='full %s %s %s/%d' % (method, t.dict, otr, seed % 10000))


def c17(c):
    c.design('HierMC', 'HierMC%d.cfg' % c.n(6, 7), must_cover=('Grow',))
    hs = [b['h'] for b in c.behaviours('HierMC', 'HierMC%d.cfg' % c.n(6, 7))]
    rng = c.rng('c17')
    k = c.n(450, 3000)
    S = lambda n: [int(s) for s in rng.integers(1 << 30, size=n)]
    pick = [hs[int(i)] for i in (rng.permutation(len(hs))[:k] if k <= len(hs) else np.r_[np.arange(len(hs)), rng.integers(len(hs), size=k - len(hs))])]
    tr = pmap(c17_item, list(zip(S(len(pick)), pick)))
    small = [h for h in hs if max(max(e['ch']) for e in h) <= 5]
    full = [small[int(i)] for i in rng.integers(len(small), size=c.n(60, 600))]
    tr += pmap(c17_full, list(zip(S(len(full)), full)))
    c.assumptions.append('global numpy seed fixed before the two calls whose scenarios are compared; LinearForecaster as base forecaster')
    c.validate('HierTrace', tr, shards=8)
