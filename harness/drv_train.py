"""Conformance driver of cross validation and tuning: C19."""
import warnings
import numpy as np, pandas as pd, optuna
from sklearn.base import BaseEstimator
from sklearn.model_selection import KFold
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import FunctionTransformer
from core import NA, BAD, pmap
from fcst import *
from pyforecaster.formatter import Formatter
from pyforecaster.metrics import make_scorer, nmae
from pyforecaster.trainer import cross_validate, hyperpar_optimizer, retrieve_cv_results

optuna.logging.set_verbosity(optuna.logging.ERROR)
LOG, NOW = [], {'t': 0, 'token': 0}


def target(i):
    """targets of row i: all 10 or -10"""
    return [10 if (i * 7 + 3) % 5 < 3 else -10, 10 if (i * i) % 7 < 4 else -10]


class Core:
    """a model whose forecasts tell its parameters, the rows it was trained on and the row asked; it notes its uses"""
    def _fit(self, x, y):
        NOW['token'] += 1
        self.token, self.tr = NOW['token'], [int(i) for i in x['id']]
        y = np.asarray(y).reshape(len(x), -1)
        self.K = y.shape[1]
        ok = len(y) == len(x) and all(list(r) == target(i)[:self.K] for i, r in zip(self.tr, y))
        self.fitted_ = True
        LOG.append(dict(e='fit', m=self.token, ids=self.tr, aligned=bool(ok), a=int(self.a), b=int(self.b), c=int(self.c), t=NOW['t']))

    def _predict(self, x):
        ids = [int(i) for i in x['id']]
        LOG.append(dict(e='predict', m=self.token, ids=ids, aligned=True, a=0, b=0, c=0, t=NOW['t']))
        v = [[(self.c + 2 * self.a + 3 * self.b + sum(self.tr) + 7 * i) % 23 - 11 + 10 * j for j in range(self.K)] for i in ids]
        return np.array(v, dtype=float)


class Plain(BaseEstimator, Core):
    def __init__(self, a=1, b=2):
        self.a, self.b = a, b
        self.c = a + 2 * b

    def fit(self, x, y):
        self._fit(x, y)
        return self

    def predict(self, x):
        return self._predict(x)


class Forecaster(ScenarioGenerator, Core):
    def __init__(self, a=1, b=2, q_vect=None, val_ratio=None, **scengen_kwgs):
        super().__init__(q_vect, val_ratio=val_ratio, **scengen_kwgs)
        self.a, self.b = a, b
        self.c = a + 2 * b

    def fit(self, x, y):
        self._fit(x, y)
        self.cols = y.columns
        return self

    def predict(self, x, **kwargs):
        return pd.DataFrame(self._predict(x), index=x.index, columns=self.cols)


def build(kind, a, b):
    if kind == 'pipe':
        return Pipeline([('pass', FunctionTransformer()), ('m', Plain(a, b))])
    return Plain(a, b) if kind == 'plain' else Forecaster(a=a, b=b, n_scen_fit=13)


def held(kind, m):
    m = m.named_steps['m'] if kind == 'pipe' else m
    return int(m.a), int(m.b)


def total(y_hat, y, agg_index=None, **kwargs):
    return pd.Series([float((y_hat - y).abs().values.sum())])


def worst(y_hat, y, agg_index=None, **kwargs):
    return pd.Series([float((y_hat - y).abs().values.max())])


METRICS = {'total': total, 'worst': worst, 'nmae': nmae}
scale = lambda name: 10000 if name == 'nmae' else 1000


def folds(rng, N, idx, how):
    """list of folds as positions, and what is passed"""
    n = int(rng.integers(2, 4))
    if how == 'int':
        f = [(a, b) for a, b in KFold(n).split(np.zeros(N))]
        return f, n if rng.random() < .7 else float(n)
    f = []
    for _ in range(n):
        lab = rng.choice(3, N, p=[.5, .3, .2])
        lab[rng.permutation(N)[:5]] = [0, 0, 1, 1, 1]          # two rows to train on, three to score
        f.append((np.where(lab == 0)[0], np.where(lab == 1)[0]))
    if rng.random() < .15:
        f[1] = f[0]
    if how.startswith('mask'):
        g = [tuple(np.isin(np.arange(N), a) for a in p) for p in f]
        if how == 'masklists':
            g = [tuple([bool(v) for v in a] for a in p) for p in g]
    else:
        if rng.random() < .5:
            f = [(rng.permutation(a), rng.permutation(b)) for a, b in f]
        g = [tuple(list(map(int, a)) for a in p) for p in f] if how == 'poslists' else f
    return f, [g, tuple(g), (x for x in g)][int(rng.integers(3))]


def space(rng, kind, given, unknown_from=None):
    pre = 'm__' if kind == 'pipe' else ''
    form, strange = int(rng.integers(4)), [pre + 'depth', 'n_estimators', 'aa', pre + 'a__b', pre + 'b__']
    strange = strange[int(rng.integers(len(strange)))]
    def fun(trial):
        NOW['t'] += 1
        d = {}
        if form != 3:
            d['a'] = trial.suggest_int('a', 0, 4)
        # the second parameter depends on the first, or is proposed alone, or never
        if form == 3 or (form == 1 and d['a'] >= 2) or form == 2:
            d['b'] = trial.suggest_int('b', 0, 9) if form != 2 else trial.suggest_categorical('b', [1, 4, 6])
        given.append({k: int(d.get(k, NA)) for k in ('a', 'b')})
        out = {pre + k: v for k, v in d.items()}
        if unknown_from is not None and len(given) > unknown_from:
            out[strange] = 3
        return out
    return fun


def grid(rng, K, idx):
    N = len(idx)
    y = pd.DataFrame([target(i + 1)[:K] for i in range(N)], index=idx, columns=['y0', 'y1'][:K], dtype=float)
    x = pd.DataFrame({'z': rng.random(N), 'id': np.arange(1, N + 1), 'w': rng.integers(0, 3, N)}, index=idx)[list(rng.permutation(['z', 'id', 'w']))]
    return x, y


def make_index(rng, N):
    h = rng.random()
    d = pd.date_range('2023-01-01', periods=N, freq='h')
    if h < .5:
        return d
    if h < .65:
        return d[:(N + 1) // 2].append(d[:N // 2])             # stacked series
    if h < .85:
        return pd.Index(rng.permutation(N) + int(rng.integers(0, 3)))
    return pd.Index(['r%d' % i for i in rng.permutation(N)])


def rows(d):
    return [[int(round(v)) for v in r] for r in np.asarray(d).reshape(len(d), -1)]


def ints(s, k):
    return [rnd(v, k) for v in np.atleast_1d(np.asarray(s, dtype=float)).ravel()]


def stored(cv, mode):
    if mode == 'full':
        n = len(cv['y_te'])
        return dict(yte=[rows(cv['y_te']['fold_%d' % i]) for i in range(n)], yhat=[rows(cv['y_hat']['fold_%d' % i]) for i in range(len(cv['y_hat']))])
    return dict(yte=[rows(cv['y_te'])], yhat=[rows(cv['y_hat'])])


def number(v):
    return NA if v is None or pd.isna(v) else int(v)


def take():
    out = list(LOG)
    LOG.clear()
    return out


def c19_history(arg):
    ops, seed = arg
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (1 << 31))
    K = int(rng.integers(1, 3))
    N = int(rng.integers(7, 13))
    idx = make_index(rng, N)
    x, y = grid(rng, K, idx)
    kind = ['plain', 'fcst', 'pipe'][int(rng.integers(3))]
    a, b = int(rng.integers(0, 5)), int(rng.integers(0, 10))
    m = build(kind, a, b)
    ev = [dict(op='replace', a=a, b=b, obs=dict(ok=True, err=''))]
    LOG.clear()
    for op in ops:
        x0, y0 = x.copy(), y.copy()
        NOW['t'] = 0
        if op == 'replace':
            a, b = int(rng.integers(0, 5)), int(rng.integers(0, 10))
            m = build(kind, a, b)
            ev.append(dict(op='replace', a=a, b=b, obs=dict(ok=True, err='')))
            continue
        mode = 'full' if op.endswith('full') or (op == 'unknown' and rng.random() < .5) else 'random'
        cvt = 'full' if mode == 'full' else 'random_fold'
        hows = ['masks', 'masklists', 'positions', 'poslists'] + ([] if op.startswith('cv') else ['int', 'int'])
        how = hows[int(rng.integers(len(hows)))]
        form = None
        if how == 'int' and isinstance(idx, pd.DatetimeIndex) and idx.is_unique and rng.random() < .8:
            n = int(rng.integers(2, 4))
            form = Formatter()
            form.add_transform(['w'], lags=[[0], [0, 2], [1, 3]][int(rng.integers(3))]).transform(pd.DataFrame({'w': x['w']}), time_features=False, holidays=False)
            try:
                f = [(np.where(p)[0], np.where(q)[0]) for p, q in Formatter.time_kfcv(form, idx, n)]
            except RuntimeError:        # the look-back is longer than a fold
                f = [([], [])]
            passed = n
            if any(len(p) == 0 or len(q) < 3 for p, q in f):
                form = None
        if form is None:
            f, passed = folds(rng, N, idx, how)
        e = dict(op='cv' if op.startswith('cv') else 'unknown' if op == 'unknown' else 'study', mode=mode, how=how,
                 folds=[dict(tr=[int(i) + 1 for i in p], te=[int(i) + 1 for i in q]) for p, q in f], store=bool(rng.random() < .5))
        if e['op'] == 'cv':
            names = list(rng.permutation(list(METRICS))[:int(rng.integers(1, 4))])
            sc, key, pos = {k: make_scorer(METRICS[k]) for k in names}, None, 0
            if len(names) == 1 and rng.random() < .6:
                sc = sc[names[0]]
            elif mode == 'full' and rng.random() < .4:
                pos = int(rng.integers(len(names)))
                key = 'test_' + names[pos]
            e.update(metrics=names, key=pos + 1)
            try:
                r, s = cross_validate(x, y, m, passed, scoring=sc, cv_type=cvt, storage_fun=(lambda *q: None) if e['store'] else None, **({} if key is None else dict(score_key=key)))
                pick = lambda k: r['test_score'] if 'test_score' in r else r['test_' + k] if 'test_' + k in r else r[k]
                o = dict(ok=True, err='', log=take(), score=rnd(float(s), scale(names[pos])), scores=[ints(pick(k), scale(k)) for k in names],
                         mutated=not (same_frame(x, x0) and same_frame(y, y0)))
                if e['store']:
                    o.update(stored(r, mode))
            except Exception as ex:
                o = dict(ok=False, err=err_name(ex))
                LOG.clear()
        else:
            big = mode == 'random' and rng.random() < .15
            n = 60 if big else int(rng.integers(2, 7))
            name = list(METRICS)[int(rng.integers(3))]
            given, unk = [], int(rng.integers(0, n)) if op == 'unknown' else None
            keep = []
            fun = lambda storage, cv: storage.append(stored(cv, mode))
            smp = [None, optuna.samplers.RandomSampler(seed=seed % 1000), optuna.samplers.TPESampler(seed=seed % 1000)][int(rng.integers(1 if big else 0, 3))]
            if big:
                smp = optuna.samplers.RandomSampler(seed=seed % 1000)
            kw = dict(n_trials=n, cv=passed, param_space_fun=space(rng, kind, given, unk), cv_type=cvt, sampler=smp, storage_fun=fun if e['store'] else None)
            if name != 'nmae' or rng.random() < .5:
                kw['metric'] = METRICS[name]
            if form is not None:
                kw['formatter'] = form
            e.update(n=n, metrics=[name])
            try:
                st, rep = hyperpar_optimizer(x, y, m, **kw)
                if op == 'unknown':
                    o = dict(ok=True, err='', log=[], kind='', at=0)
                    LOG.clear()
                else:
                    d = retrieve_cv_results(st)
                    g = lambda r, c: r[c] if c in d.columns else None
                    tr = []
                    for _, r in d.iterrows():
                        sd = g(r, 'cv_test_score_std')
                        tr.append(dict(number=int(r['number']), a=number(g(r, 'params_a')), b=number(g(r, 'params_b')), value=rnd(float(r['value']), scale(name)),
                                       rank=number(r['rank']), std=NA if sd is None else rnd(float(sd), 10)))
                    ha, hb = held(kind, m)
                    o = dict(ok=True, err='', log=take(), trials=tr, ntrials=len(st.trials), given=given, a=ha, b=hb, stored=rep if e['store'] else [],
                             mutated=not (same_frame(x, x0) and same_frame(y, y0)))
            except Exception as ex:
                o = dict(ok=False, err=err_name(ex), kind=type(ex).__name__, at=NOW['t'], log=take())
        e['obs'] = o
        ev.append(e)
        if not o['ok'] and op != 'unknown':
            break
    return dict(y=[target(i + 1)[:K] for i in range(N)], ev=ev, id='%s %s N=%d/%d' % (kind, '-'.join(ops), N, seed % 10000))


class Twice:
    """a formatter as far as forecasters use one"""
    denormalizing_fun = 'twice'

    def denormalize(self, x, y):
        return 2 * y


def c19_real(seed):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (1 << 31))
    kind = ['linear', 'lgb', 'linear-default', 'kernel', 'kernels'][int(rng.integers(5))]
    N, K = 60, 3
    x, y = data(rng, N, K, idx=index(rng, N, 'D'))
    nf = int(rng.integers(2, 4))
    f, passed = folds(rng, N, x.index, ['masks', 'positions'][int(rng.integers(2))])
    f = f[:nf]
    passed = list(passed)[:nf]
    if kind.startswith('kernel'):
        std = [int(v) for v in rng.integers(0, 2, 4)]
        m = RFFRegression(val_ratio=.5) if kind == 'kernel' else AdditiveRFFRegression(2, val_ratio=.5)
        flat, it = [], iter(std)
        def sp(trial):
            trial.suggest_float('s', 0, 1)
            return {'std_kernel': 1. if next(it) else 0.}
        def keep(storage, cv):
            v = cv['y_hat']['fold_0'].values
            flat.append(int(np.ptp(v, axis=0).max() < 1e-3))
        e = dict(op='kernel', n=len(std))
        try:
            hyperpar_optimizer(x, y, m, n_trials=len(std), cv=passed, param_space_fun=sp, storage_fun=keep)
            o = dict(ok=True, err='', flat=flat, std=std)
        except Exception as ex:
            o = dict(ok=False, err=err_name(ex))
        e['obs'] = o
        return dict(y=[[1]], ev=[e], id='%s/%d' % (kind, seed % 10000))
    nodes = [[1, 2, 4], [1, 3, 6], [1, 1, 3]][int(rng.integers(3))]
    ns = int(rng.integers(11, 31))
    conf = dict(nodes_at_step=nodes, n_scen_fit=ns, conditional_to_hour=False, copula_type='HourlyGaussianCopula', tree_type=['ScenredTree', 'QuantileTree'][int(rng.integers(2))],
                formatter=None if rng.random() < .5 else Twice(), val_ratio=None if rng.random() < .5 else .3, q_vect=np.array([.1, .3, .5, .7, .9]))
    cls = LGBForecaster if kind == 'lgb' else LinearForecaster
    if kind == 'lgb':
        conf.update(num_leaves=4, min_child_samples=2, n_jobs=1)
    given = []
    def sp(trial):
        d = {'n_estimators': trial.suggest_int('n_estimators', 1, 20)} if kind == 'lgb' else {'kind': trial.suggest_categorical('kind', ['linear', 'ridge'])}
        given.append(d)
        return d
    n = 2
    out = []
    def keep(storage, cv):
        fs = []
        for i, est in enumerate(cv['estimator']):
            ask = x.iloc[f[i][1][:1]]
            t = est.predict_trees(ask)
            t = t[0] if isinstance(t, (list, tuple)) else t[list(t)[0]] if isinstance(t, dict) else t
            steps = [d['t'] for _, d in t.nodes(data=True)]
            fs.append(dict(got=[rnd(v, 1000) for v in cv['y_hat']['fold_%d' % i].values.ravel()], nscen=int(shape(est.predict_scenarios(ask))[-1]),
                           levels=[int(sum(1 for v in steps if v == s)) for s in sorted(set(steps))]))
        out.append(dict(folds=fs))
    e = dict(op='real', n=n, nf=len(f), nscen=ns, levels=nodes)
    try:
        st, _ = hyperpar_optimizer(x, y, cls(**conf), n_trials=n, cv=passed, storage_fun=keep, **({} if kind == 'linear-default' else dict(param_space_fun=sp)))
        for t, r in enumerate(out):
            g = st.trials[t].params
            for i, (tr, te) in enumerate(f):
                al = cls(**dict(conf, **g)).fit(x.iloc[tr], y.iloc[tr]).predict(x.iloc[te])
                r['folds'][i]['alone'] = [rnd(v, 1000) for v in al.values.ravel()]
        o = dict(ok=True, err='', trials=out)
    except Exception as ex:
        o = dict(ok=False, err=err_name(ex))
    e['obs'] = o
    return dict(y=[[1]], ev=[e], id='%s/%d' % (kind, seed % 10000))


def shape(s):
    """rows of the answer by number of scenarios, for the one row asked"""
    s = s[list(s)[0]] if isinstance(s, dict) else s
    return np.asarray(s).shape


def c19(c):
    for cfg in c.n(['TrainerMC.cfg'], ['TrainerMC.cfg', 'TrainerMC_deep.cfg']):
        c.design('TrainerMC', cfg, must_cover=('Propose', 'Fit', 'Score'))
    rng = c.rng('c19')
    hs = c.behaviours('TrainerHist', 'TrainerHist3.cfg')
    hs = [hs[i] for i in (rng.permutation(len(hs)) if c.thorough else rng.permutation(len(hs))[:180])]
    if c.thorough:
        h4 = c.behaviours('TrainerHist', 'TrainerHist4.cfg')
        hs = [h for h in hs for _ in range(4)] + h4
    S = lambda n: [int(s) for s in rng.integers(1 << 30, size=n)]
    tr = pmap(c19_history, list(zip(hs, S(len(hs)))))
    tr += pmap(c19_real, S(c.n(60, 600)))
    c.validate('TrainerTrace', tr, shards=8)
