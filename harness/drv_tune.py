"""Conformance driver of the tuning of recursive forecasters: C26."""
import json, os, tempfile
import numpy as np, pandas as pd
from core import pmap
from fcst import *
from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti, tune_hyperpars
from pyforecaster.forecasting_models.fast_adaptive_models import StatefulForecaster, Fourier_es, FK, FK_multi

PATH, COUNT, UNIT = [None], [0], [1.]


def write(d):
    # candidates may be evaluated in other processes: their notes meet in a file
    with os.fdopen(os.open(PATH[0], os.O_WRONLY | os.O_APPEND | os.O_CREAT), 'w') as f:
        f.write(json.dumps(d) + '\n')


def rows(ids):
    ids = [int(i) for i in ids]
    return [ids[0], ids[-1], len(ids) if ids == list(range(ids[0], ids[0] + len(ids))) else -1] if ids else [0, 0, -1]


def token(a, v):
    return ' '.join(repr(float(u)) for u in [a] + list(v))


class Core:
    def _note(self, ids, cols):
        COUNT[0] += 1
        ids = [int(i) for i in ids]
        v = [float(u) for u in self.v]
        self.m_, self.sum_ = '%d-%d' % (os.getpid(), COUNT[0]), sum(ids)
        write(dict(e='fit', m=self.m_, rows=rows(ids), tok=token(self.a, v), a=int(self.a * 100), b=int(v[0] * 100) + int(v[1] * 100),
                   par=[[int(round(self.a * 1000))], [int(round(u * 1000)) for u in v]], target=self.target_name, cols=[str(c) for c in cols]))

    def _forecast(self, ids):
        write(dict(e='predict', m=self.m_, rows=rows(ids), tok='', a=0, b=0, par=[], target='', cols=[]))
        a, b = int(self.a * 100), int(float(self.v[0]) * 100) + int(float(self.v[1]) * 100)
        return np.array([[(3 * a + 5 * b + self.sum_ + 7 * int(i)) % 23 - 11 + 10 * s for s in range(self.n_sa)] for i in ids], dtype=float) * UNIT[0]


class Plain(ScenarioGenerator, Core):
    def __init__(self, target_name='u', targets_names=None, n_sa=1, a=.5, v=(.5, .5), verbose=False, optimize_hyperpars=True, q_vect=None, val_ratio=None, **scengen_kwgs):
        super().__init__(q_vect, val_ratio=val_ratio, **scengen_kwgs)
        self.target_name, self.targets_names = target_name, [target_name] if targets_names is None else targets_names
        self.n_sa, self.a, self.v, self.verbose, self.optimize_hyperpars = n_sa, a, v, verbose, optimize_hyperpars

    def fit(self, x, y=None, **kwargs):
        self._note(x['id'], x.columns)
        return self

    def predict(self, x, **kwargs):
        return pd.DataFrame(self._forecast(x['id']), index=x.index)


class Recursive(StatefulForecaster, Core):
    """a forecaster of the library's stateful family, tuned by its own fit"""
    LIMS = {}

    def __init__(self, target_name='u', targets_names=None, n_sa=1, m=4, a=.5, v=(.5, .5), verbose=False, optimize_hyperpars=True, optimization_budget=3, q_vect=None, val_ratio=None,
                 nodes_at_step=None, **scengen_kwgs):
        super().__init__(target_name=target_name, targets_names=targets_names, n_sa=n_sa, m=m, optimize_hyperpars=optimize_hyperpars, optimization_budget=optimization_budget,
                         verbose=verbose, q_vect=q_vect, val_ratio=val_ratio, nodes_at_step=nodes_at_step, **scengen_kwgs)
        self.init_pars.update({'a': a, 'v': v})
        self.a, self.v = a, v
        self.hyperpar_lims = dict(self.LIMS)

    def reinit_pars(self):
        self.states = {'w': None}

    def fit(self, x_pd, y_pd=None, **kwargs):
        self.cols_, self.at_ = list(x_pd.columns), list(x_pd.columns).index('id')
        return super().fit(x_pd, y_pd, **kwargs)

    def run(self, x, y, return_coeffs=False, start_from=0, fit=True):
        self._note(x[:, self.at_], self.cols_)
        return np.zeros((len(y), self.n_sa))

    def predict(self, x, **kwargs):
        return pd.DataFrame(self._forecast(x['id']), index=x.index)


def c26_stub(seed):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 31))
    nsa = int(rng.integers(1, 4))
    N = int(rng.integers(14, 34))
    names = [['u', 'v', 'w'], ['w', 'u'], ['u']][int(rng.integers(3))]
    tg = names[:int(rng.integers(1, len(names) + 1))]
    tgn = None if len(tg) == 1 and rng.random() < .5 else list(rng.permutation(tg))
    target = str(rng.choice(tg))
    ys = {c: rng.integers(-9, 10, N) for c in names}
    cols = names + ['id'] + (['z'] if rng.random() < .5 else [])
    UNIT[0] = float(rng.choice([1., 1., 2. ** -12, 2. ** 14]))      # of the signals: scores do not depend on it but for their scale
    x = pd.DataFrame({**{c: ys[c].astype(float) * UNIT[0] for c in names}, 'id': np.arange(1, N + 1), 'z': rng.integers(0, 9, N)}, index=index(rng, N))[[str(c) for c in rng.permutation(cols)]]
    lo = sorted(int(v) for v in rng.choice(np.arange(0, 40), 2, replace=False))
    vl = [sorted(int(v) for v in rng.choice(np.arange(0, 40), 2, replace=False)) for _ in range(2)]
    lims = {'a': [lo[0] / 10, lo[1] / 10]}
    both = bool(rng.random() < .5)
    if both:
        lims['v'] = [[l[0] / 10, l[1] / 10] for l in vl]
    L = [[[100 * lo[0], 100 * lo[1]]], [[100 * l[0], 100 * l[1]] for l in vl] if both else [[500, 500]] * 2]
    if rng.random() < .2:
        lims = {k: np.array(v) for k, v in lims.items()}
    kind = ['model', 'pars', 'fit'][int(rng.integers(3))]
    trials = int(rng.integers(1, 9))
    # processes are started per tuning: they are used by some only
    par = bool(rng.random() < .3)
    conf = dict(target_name=target, n_sa=nsa, verbose=False)
    if tgn is not None or rng.random() < .5:
        conf['targets_names'] = None if tgn is None else [str(c) for c in tgn]
    targets = [target] if tgn is None else [str(c) for c in tgn]
    ids = [str(c) for c in names]
    e = dict(op='tune', n=N, nsa=nsa, trials=trials, lims=L, spread=trials >= 4, targets=targets, target=target, cols=[str(c) for c in x.columns], refit=kind != 'pars',
             ys=[[int(v) for v in ys[c]] for c in targets])
    before = x.copy(deep=True)
    fd, path = tempfile.mkstemp(prefix='tune')
    os.close(fd)
    PATH[0] = path
    try:
        if kind == 'fit':
            Recursive.LIMS = lims
            m = Recursive(m=4, optimization_budget=trials, **conf)
            m.fit(x)
            a, v, t, ts = m.a, m.v, m.target_name, m.targets_names
        else:
            r = tune_hyperpars(x, Plain, hyperpars=lims, n_trials=trials, return_model=kind == 'model', parallel=par, model_init_kwargs=conf)
            a, v, t, ts = (r.a, r.v, r.target_name, r.targets_names) if kind == 'model' else (r['a'], r['v'], r['target_name'], r['targets_names'])
        ts = [t] if ts is None else ts
        with open(path) as f:
            log = [json.loads(s) for s in f]
        o = dict(ok=True, err='', log=log, mutated=not same_frame(x, before), tok=token(a, v), target=str(t), targets=[str(c) for c in ts])
    except Exception as ex:
        o = dict(ok=False, err=err_name(ex))
    finally:
        os.unlink(path)
    e['obs'] = o
    return dict(ev=[e], id='%s par=%s trials=%d targets=%s/%d' % (kind, par, trials, tgn, seed % 10000))


def c26_real(seed):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 31))
    nsa, N = int(rng.integers(1, 4)), int(rng.integers(50, 90))
    idx = index(rng, N)
    k = np.arange(N)
    x = pd.DataFrame({c: np.round(10 * np.sin(k * rng.uniform(.2, 1)) + rng.normal(0, 3, N), 1) for c in ['u', 'v']}, index=idx)
    if rng.random() < .4:
        x['z'] = rng.integers(0, 9, N).astype(float)
    tr, te = x.iloc[:N - 12], x.iloc[N - 12:]
    target = ['u', 'v'][int(rng.integers(2))]
    tgn = [None, ['u', 'v'], ['v', 'u']][int(rng.integers(3))]
    q = np.array([.1, .5, .8])
    kind = ['hw', 'fourier', 'fk', 'hwmulti', 'fkmulti'][int(rng.integers(5))]
    K, kw = dict(hw=(HoltWinters, dict(periods=[3, 6])), fourier=(Fourier_es, dict(m=12, n_harmonics=2)), fk=(FK, dict(m=12, n_harmonics=2)),
                 hwmulti=(HoltWintersMulti, dict(periods=[3, 6], models_periods=np.array(sorted({1, nsa})))), fkmulti=(FK_multi, dict(m=12, n_predictors=2, periodicity=6,
                          base_predictor=[Fourier_es, FK][int(rng.integers(2))])))[kind]
    e = dict(op='real', target=target)
    try:
        m = K(target_name=target, targets_names=tgn, n_sa=nsa, q_vect=q, optimize_hyperpars=True, optimization_budget=3, verbose=False, **kw)
        subs = lambda w: list(w.models) if kind.endswith('multi') else [w]
        b = [d.get_params() for d in subs(m)]
        m.fit(tr)
        p = m.get_params()
        pars, same = [], []
        for d, b0 in zip(subs(m), b):
            g = d.get_params()
            lims = getattr(d, 'hyperpar_lims', None) or {'alpha': [0, 1], 'gamma_1': [0, 1], 'gamma_2': [0, 1]}
            for n, l in lims.items():
                pars.append([int(np.floor(float(g[n]) * 10000)), int(l[0] * 10000), int(np.ceil(l[1] * 10000))])
                same.append(float(g[n]) == float(b0[n]))
        al = K(**{**p, 'optimize_hyperpars': False}).fit(tr)
        big = lambda a: [rnd(v, 100) for v in np.asarray(a, dtype=float).ravel()]
        o = dict(ok=True, err='', pars=pars, untouched=bool(all(same)), target=str(m.target_name), got=big(m.predict(te)), alone=big(al.predict(te)),
                 qgot=big(m.predict_quantiles(te.iloc[:3])), qalone=big(al.predict_quantiles(te.iloc[:3])))
    except Exception as ex:
        o = dict(ok=False, err=err_name(ex))
    e['obs'] = o
    return dict(ev=[e], id='%s %s/%d' % (kind, tgn, seed % 10000))


def c26(c):
    for cfg in c.n(['TunerMC.cfg'], ['TunerMC.cfg', 'TunerMC_deep.cfg']):
        c.design('TunerMC', cfg, must_cover=('Train', 'Backtest', 'Keep'))
    rng = c.rng('c26')
    S = lambda n: [int(s) for s in rng.integers(1 << 30, size=n)]
    tr = pmap(c26_stub, S(c.n(200, 3000)))
    tr += pmap(c26_real, S(c.n(36, 500)))
    c.validate('TunerTrace', tr, shards=8)
