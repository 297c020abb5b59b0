"""Conformance driver of the scores: C18."""
from functools import partial
import numpy as np, pandas as pd
from core import NA, BAD, pmap
from fcst import *
import pyforecaster.metrics as pm

POINT = {'rmse': pm.rmse, 'mape': pm.mape, 'nmae': pm.nmae, 'nmae0': partial(pm.nmae, inter_normalization=False)}


def square(v):
    """averages of squares from their roots, times 1000"""
    return [[rnd(a * a, 1000) for a in r] for r in v]


def ints(a):
    return np.asarray(a).astype(int).tolist()


class Stub(ScenarioGenerator):
    """an estimator that only answers with given forecasts"""
    def __init__(self, x, q, levels, frame):
        super().__init__(q_vect=np.array(levels) / 100)
        self.x_, self.q_, self.frame, self.calls, self.target_cols = x, q, frame, [], list(x.columns)

    def predict(self, x, **kw):
        self.calls.append(list(x['row']))
        d = self.x_.loc[x.index]
        return d if self.frame else d.values

    def _predict_quantiles(self, x, **kw):
        self.calls.append(list(x['row']))
        return self.q_[x['row'].values]


class Case:
    def __init__(self, rng):
        n, m = int(rng.integers(2, 16)), int(rng.integers(1, 6))
        self.rng, self.n, self.m = rng, n, m
        zeros = rng.random() < .3
        self.t = rng.integers(-8, 9, (n, m))
        if not zeros:
            self.t[self.t == 0] = 3
        self.x = np.where(rng.random((n, m)) < .15, self.t, rng.integers(-8, 9, (n, m)))
        self.L = int(rng.choice([2, 3, 5, 6, 11])) if rng.random() < .5 else int(rng.integers(1, 8))
        self.q = rng.integers(-8, 9, (n, m, self.L))
        if rng.random() < .7:
            self.q.sort(axis=2)
        self.mask = rng.random((n, m)) < rng.choice([.5, .8, .95])
        if not self.mask.any():
            self.mask[0, 0] = True
        self.idx = index(rng, n) if rng.random() < .7 else pd.Index(rng.permutation(n) + 3)
        self.cols = ['y_%d' % i for i in rng.permutation(13)[:m]] if rng.random() < .7 else list(range(m))
        self.even = [round(100 * i / (self.L - 1)) for i in range(self.L)] if self.L in (2, 3, 5, 6, 11) else None
        self.levels = sorted(int(v) for v in rng.permutation(np.arange(1, 100))[:self.L])
        if rng.random() < .2:
            self.levels = self.levels[::-1]                   # levels in another order: each still belongs to its own forecast
        self.T = pd.DataFrame(self.t.astype(float) if rng.random() < .5 else self.t, index=self.idx, columns=self.cols)
        self.X = pd.DataFrame(self.x.astype(float), index=self.idx, columns=self.cols)

    def norm_ok(self, masked, inter):
        w = self.mask if masked else np.ones_like(self.mask)
        a = np.array([np.abs(self.t[r][w[r]]).mean() for r in range(self.n) if w[r].any()])
        return (a > 0).all() or (inter and np.median(a) > 0)

    def scale(self, metric, masked):
        w = self.mask if masked else np.ones_like(self.mask)
        if metric == 'mape':
            return 10 if (self.t[w] == 0).any() else 100000
        if metric.startswith('nmae'):
            return 1000 if any(not np.abs(self.t[r][w[r]]).any() for r in range(self.n)) else 10000
        return 10000

    def quantiles(self, form, levels):
        if form == 'frame':
            return pd.DataFrame(self.q.reshape(self.n, -1), index=self.idx, columns=pd.MultiIndex.from_product([self.cols, [v / 100 for v in levels]]))
        return self.q.copy() if form == 'last' else self.q.transpose(0, 2, 1).copy()

    def groups(self, k, int_only=False):
        """labels of k entries: (labels, group ids)"""
        rng = self.rng
        G = int(rng.integers(1, min(k, 5) + 1))
        kind = int(rng.integers(2 if int_only else 5))
        names = [[i * 3 - 2 for i in range(5)], [4, 2, 9, 0, 7], ['b', 'a', 'c', 'z', 'k'], [1.5, -2.5, 0.5, 4.25, 9.], [True, False]][kind]
        G = min(G, len(names))
        g = rng.integers(0, G, k)
        return [names[i] for i in g], names


def table(case, r, metric, ids, axis, levels, interval=None):
    """projection of a score frame: (labels problem, groups, values, members)"""
    others = list(case.cols) if axis == 'rows' else list(case.idx)
    quant = metric in ('qs', 'rel', 'gap')
    groups, vals, members = [], [], []
    al = [v / 100 for v in levels]
    if quant:
        got = list(r.columns.get_level_values(0).unique())
        if len(got) != len(al) or not np.allclose(sorted(got), sorted(al), atol=1e-9):
            return 'levels', [], [], []
        pos = [got[int(np.argmin(np.abs(np.array(got) - a)))] for a in al]
        parts = [r[p] for p in pos]
    else:
        parts = [r]
    for p in parts:
        if len(p.columns) != len(others) or set(p.columns) != set(others):
            return 'columns', [], [], []
    m = np.hstack([p[others].values.astype(float) for p in parts])
    if metric == 'rmse':
        m = square(m)
    else:
        m = mat(m, case.sc)
    for i, lab in enumerate(r.index):
        if interval is not None:
            members.append([int(j) + 1 for j in np.flatnonzero([(v in lab) if isinstance(lab, pd.Interval) else v == lab for v in interval])])
            if not members[-1]:
                members.pop()
                continue                 # a bin that holds nothing
            groups.append(len(groups) + 1)
        else:
            k = [j for j, v in enumerate(ids) if v == lab]
            if len(k) != 1:
                return 'group %s' % lab, [], [], []
            groups.append(k[0] + 1)
        vals.append(m[i])
    return '', groups, vals, members


def event(case, metric, axis, labels, names, levels=(), masked=False, **kw):
    return dict(op='score', metric=metric, axis=axis, grp=[names.index(v) + 1 for v in labels] if labels is not None else [], levels=list(levels),
                masked=masked, cut=False, v=[], nq=1, scale=case.scale(metric, masked), **kw)


def direct(case):
    """one call of one score function"""
    rng = case.rng
    metric = str(rng.choice(['rmse', 'mape', 'nmae', 'nmae0', 'qs', 'rel', 'gap', 'crps', 'qs']))
    if metric.startswith('nmae') and not case.norm_ok(False, metric == 'nmae'):
        metric = 'mape'
    axis = 'rows' if rng.random() < .6 or case.n == case.m else 'cols'      # a grouping as long as the rows is one of the rows
    k = case.n if axis == 'rows' else case.m
    labels, names = case.groups(k)
    if rng.random() < .15:
        axis, labels, names, agg = 'rows', ['all'] * case.n, ['all'], None
    else:
        s = rng.random()
        agg = np.array(labels, dtype=object if isinstance(labels[0], str) else None) if s < .5 else pd.Index(labels) if s < .8 else pd.Categorical(labels)
    levels = []
    if metric in ('qs', 'rel', 'gap', 'crps'):
        form = str(rng.choice(['frame', 'last', 'middle']))
        if form == 'middle' and case.L == case.m:
            form = 'last'                      # the two orders cannot be told apart
        default = case.even is not None and rng.random() < .4
        levels = case.even if default else case.levels
        q = case.quantiles(form, levels)
        q0 = q.copy()
    e = event(case, metric, axis, labels, names, levels)
    case.sc = e['scale']
    X, T, a0 = case.X.copy(), case.T.copy(), None if agg is None else agg.copy()
    try:
        kw = {} if agg is None else dict(agg_index=agg)
        if metric in POINT:
            r = POINT[metric](X, T, **kw)
        else:
            if not default:
                kw['alphas'] = [v / 100 for v in levels] if rng.random() < .5 else np.array(levels) / 100
            if metric == 'qs':
                r, other = pm.quantile_scores(q, T, **kw)
            elif metric == 'rel':
                r = pm.quantile_scores(q, T, **kw)[1] if rng.random() < .3 else pm.reliability(q, T, **kw)
            elif metric == 'gap':
                r = pm.reliability(q, T, get_score=True, **kw)
            elif rng.random() < .3:
                r, e['metric'] = pm.crps(q, T, collapse_quantile_axis=False, **kw), 'qs'
            else:
                r = pm.crps(q, T, **kw)
        if agg is None:
            r.index = ['all'] * len(r)
        mut = [nm for nm, a, b in (('forecast', X, case.X), ('target', T, case.T)) if not same_frame(a, b)]
        if metric not in POINT and not (same_frame(q, q0) if form == 'frame' else np.array_equal(q, q0)):
            mut.append('quantiles')
        if agg is not None and not np.array_equal(np.asarray(agg), np.asarray(a0)):
            mut.append('grouping')
        lab, g, v, mem = table(case, r, e['metric'], names, axis, levels)
        e['obs'] = dict(ok=True, err='', mutated=', '.join(mut), labels=lab, groups=g, vals=v, members=mem)
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return [e]


def named(f, name):
    f.__name__ = name
    return f


def summary(case):
    """summary scores over several grouping columns"""
    rng = case.rng
    out, cols, defs = [], {}, {}
    axis = 'rows' if rng.random() < .75 or case.n == case.m else 'cols'
    k = case.n if axis == 'rows' else case.m
    nq = [2, 4, 8][int(rng.integers(3))]             # shares that are exact in floating point
    for i in range(int(rng.integers(1, 4))):
        c = ['hour', 'kind', 7][i]
        if rng.random() < .5 and axis == 'rows':
            v = rng.integers(-9, 10, k)
            if len(set(v)) >= nq:
                cols[c] = v * .25
                defs[c] = ('cut', ints(v))
                continue
        labels, names = case.groups(k)
        if isinstance(labels[0], float) and len(set(labels)) >= nq:
            labels, names = case.groups(k, True)
        cols[c] = labels
        if isinstance(labels[0], int) and not isinstance(labels[0], bool) and rng.random() < .3:
            cols[c] = np.array(labels, dtype=['int32', 'int8', 'int16'][int(rng.integers(3))])
        elif isinstance(labels[0], str) and rng.random() < .4:
            cols[c] = pd.Categorical(labels)
        defs[c] = ('lab', labels, names)
    idxs = pd.DataFrame(cols, index=case.idx if axis == 'rows' else None)
    masked = rng.random() < .5
    quant = rng.random() < .4
    if quant:
        levels = case.levels
        al = [v / 100 for v in levels]
        form = str(rng.choice(['frame', 'last', 'middle']))
        if form == 'middle' and case.L == case.m:
            form = 'last'
        x = case.quantiles(form, levels)
        ms = {'crps': partial(pm.crps, alphas=al), 'rel': partial(pm.reliability, alphas=al)}
        names = {'crps': 'crps', 'rel': 'reliability'}
    else:
        levels, form = [], 'frame'
        x = case.X.copy()
        if rng.random() < .4:
            x.columns = ['p%d' % i for i in range(case.m)]
        ms = {k: v for k, v in POINT.items() if k != 'nmae0' and not (k == 'nmae' and not case.norm_ok(masked, True)) and rng.random() < .7} or {'rmse': pm.rmse}
        names = {k: k for k in ms}
        if not masked and rng.random() < .15:
            x, form = x.values, 'array'
    ref = x.copy()
    T, M = case.T.copy(), pd.DataFrame(case.mask, index=case.idx, columns=case.cols)
    M0, I0 = M.copy(), idxs.copy()
    err = ''
    try:
        res = pm.summary_scores(x, T, list(ms.values()), idxs, mask=M if masked else None, n_quantiles=nq)
        mut = [nm for nm, a, b in (('forecast', x, ref), ('target', T, case.T), ('mask', M, M0), ('groupings', idxs, I0)) if not (same_frame(a, b) if isinstance(b, pd.DataFrame) else np.array_equal(a, b))]
    except Exception as ex:
        res, err = {}, err_name(ex)
    for mt in ms:
        for c, d in defs.items():
            e = event(case, mt, axis, d[1] if d[0] == 'lab' else None, d[-1], levels, masked)
            if d[0] == 'cut':
                e.update(cut=True, v=d[1], nq=nq)
            case.sc = e['scale']
            try:
                if err:
                    e['obs'] = dict(ok=False, err=err)
                else:
                    r = res[names[mt]].loc[c]
                    lab, g, v, mem = table(case, r, mt, d[-1], axis, levels, cols[c] if d[0] == 'cut' else None)
                    e['obs'] = dict(ok=True, err='', mutated=', '.join(mut), labels=lab, groups=g, vals=v, members=mem)
            except Exception as ex:
                e['obs'] = dict(ok=False, err='result of %s over %s: %s' % (mt, c, err_name(ex)))
            out.append(e)
    return out


def scorer(case):
    rng = case.rng
    metric = str(rng.choice(['rmse', 'mape', 'nmae', 'crps', 'rel']))
    if metric == 'nmae' and not case.norm_ok(False, True):
        metric = 'rmse'
    f = {'rmse': pm.rmse, 'mape': pm.mape, 'nmae': pm.nmae, 'crps': pm.crps, 'rel': pm.reliability}[metric]
    if rng.random() < .3:
        f = partial(f)
    levels = sorted(case.levels)
    q = np.sort(case.q, axis=2)
    case.q = q
    frame = rng.random() < .5
    P = case.X.copy()
    if frame and rng.random() < .5:
        P.columns = ['p%d' % i for i in range(case.m)]
    P0 = P.copy()
    est = Stub(P, q, levels, frame)
    F = pd.DataFrame({'row': np.arange(case.n)}, index=case.idx)
    T = case.T.copy()
    e = dict(op='scorer', metric=metric, levels=levels, masked=False, scale=case.scale(metric, False), rowsasked=[list(range(case.n))])
    try:
        v = pm.make_scorer(f)(est, F, T)
        mut = [nm for nm, a, b in (('target', T, case.T), ('features', F, pd.DataFrame({'row': np.arange(case.n)}, index=case.idx))) if not same_frame(a, b)]
        e['obs'] = dict(ok=True, err='', v=rnd(float(v), 1000 if metric == 'rmse' else e['scale']), mutated=', '.join(mut), calls=[[int(i) for i in c] for c in est.calls])
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return [e]


def c18_item(item):
    seed, kind = item
    rng = np.random.default_rng(seed)
    case = Case(rng)
    ev = {'direct': direct, 'summary': summary, 'scorer': scorer}[kind](case)
    return dict(t=ints(case.t), x=ints(case.x), q=ints(case.q), mask=ints(case.mask), full=ints(np.ones_like(case.mask)), ev=ev, id='%s %s/%d' % (kind, ev[0]['metric'], seed % 10000))


def c18(c):
    c.design('ScoresMC', c.n('ScoresMC.cfg', 'ScoresMC_deep.cfg'), must_cover=('Flip',))
    rng = c.rng('c18')
    S = lambda n, k: [(int(s), k) for s in rng.integers(1 << 30, size=n)]
    items = S(c.n(900, 12000), 'direct') + S(c.n(500, 7000), 'summary') + S(c.n(150, 2000), 'scorer')
    c.validate('ScoresTrace', pmap(c18_item, items), shards=8)
