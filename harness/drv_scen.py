"""Conformance drivers of scenarios and trees: C12, C13, C14."""
import copy, pickle
from unittest import mock
import numpy as np, pandas as pd, networkx as nx
import fake_ray
fake_ray.install()
from core import NA, BAD, pmap, enc
from fcst import *
import pyforecaster.dictionaries as dicts
from pyforecaster.copula import GaussianCopula
from pyforecaster.scenarios_generator import ScenGen

RANKS = {}


class KnownRanks(GaussianCopula):
    """a dependence written by a user: returns the ranks stored for each row"""
    def __init__(self, cov_est_method='vanilla', logger=None):
        super().__init__(cov_est_method, logger)

    def fit(self, y, x=None, **kw):
        self.dim = y.shape[1]
        return self

    def sample(self, x, n_scen, random_state=None):
        return np.stack([RANKS[int(i)] for i in x['id']]) / 1000.


dicts.COPULA_MAP['KnownRanks'] = KnownRanks


class QProbe(ScenarioGenerator):
    """a forecaster written by a user whose quantiles are known"""
    def __init__(self, q=None, **kw):
        super().__init__(**kw)
        self.q = q

    def fit(self, x, y):
        ScenarioGenerator.fit(self, x, y)
        return self

    def predict(self, x, **kw):
        return pd.DataFrame(np.stack([np.asarray(self.q[int(i)])[:, 0] for i in x['id']]).astype(float), index=x.index, columns=self.target_cols)

    def _predict_quantiles(self, x, **kw):
        return np.stack([np.asarray(self.q[int(i)]) for i in x['id']]).astype(float)


# =============================================================== C12
def scen3(s, scale):
    a = np.asarray(s, dtype=float)
    return [[[rnd(v, scale) for v in r] for r in m] for m in a]


def c12_interp(seed):
    rng = np.random.default_rng(seed)
    n, K, N, Q = int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 9)), int(rng.integers(2, 7))
    knots = sorted(int(v) for v in rng.choice(np.arange(1, 20) * 50, Q, replace=False))
    how = ['array', 'frame', 'forecaster'][int(rng.integers(3))]
    std = bool(rng.random() < .2)           # the standard levels
    if std:
        knots = [10] + list(range(100, 901, 100)) + [990]
        Q = len(knots)
    q = {i: np.sort(rng.integers(-200, 200, (K, Q)), axis=1) for i in range(n)}
    if rng.random() < .2:
        q = {i: rng.integers(-200, 200, (K, Q)) for i in range(n)}
    ranks = {i: rng.integers(0, 1001, (K, N)) for i in range(n)}
    RANKS.clear()
    RANKS.update(ranks)
    idx = index(rng, n, ['h', '15min', '7h'][int(rng.integers(3))])
    idx = idx[rng.permutation(n)] if rng.random() < .3 else idx
    x = pd.DataFrame({'id': np.arange(n), 'z': 1.}, index=idx)
    add = bool(rng.random() < .4)
    given = add and rng.random() < .7
    init = [int(v) for v in rng.integers(-90, 90, n)] if given else [0] * n
    io = None if not given else [np.array(init, float), list(init), pd.Series(init, index=idx, dtype=float)][int(rng.integers(3))]
    qv = np.array(knots) / 1000
    e = dict(op='interp', knots=knots, q=[q[i].tolist() for i in range(n)], ranks=[ranks[i].tolist() for i in range(n)], nscen=N, addnode=add, init=init)
    try:
        err = pd.DataFrame(rng.normal(size=(30, K)), index=index(rng, 30, 'h'), columns=['k%d' % k for k in range(K)])
        ex = pd.DataFrame({'id': 0}, index=err.index)
        if how == 'forecaster':
            m = QProbe(q=dict(q, **{}), q_vect=None if std else qv, copula_type='KnownRanks', additional_node=add, n_scen_fit=N)
            m.fit(ex, err)
            s = m.predict_scenarios(x, n_scen=None if rng.random() < .5 else N, **(dict(init_obs=io) if given else {}))
        else:
            sg = ScenGen(copula_type='KnownRanks', additional_node=add, **({} if std else dict(q_vect=qv)))
            sg.fit(err, ex)
            arr = np.stack([q[i] for i in range(n)]).astype(float)
            qq = arr
            if how == 'frame':
                qq = pd.concat({qv[j]: pd.DataFrame(arr[:, :, j], index=idx, columns=err.columns) for j in range(Q)}, axis=1)
            s = sg.predict_scenarios(qq, n_scen=N, x=x, init_obs=io)
        e['obs'] = dict(ok=True, shape=list(np.shape(s)), s=scen3(s, 1000) if np.ndim(s) == 3 else [])
    except Exception as ex_:
        e['obs'] = dict(ok=False, err=err_name(ex_))
    return dict(id='interp/%s/n=%d K=%d N=%d add=%s/%d' % (how, n, K, N, add, seed % 1000), errs=[], errhours=[], ev=[e])


def rankquantiles(n, K, qv):
    return np.tile(np.asarray(qv) * 10000, (n, K, 1))


def c12_dep(seed):
    rng = np.random.default_rng(seed)
    mid = rng.random() < .35
    K = int(rng.integers(2, 4)) if mid else int(rng.integers(1, 5))
    cov = 'vanilla'
    if mid and rng.random() < .5:
        # regularised estimates are somewhat weaker
        K, cov = 2, ['shrunk', 'shrunk', 'glasso', 'glasso_cv'][int(rng.integers(4))]
    nd = 20 if mid else int(rng.integers(6, 12))
    tz = ['Europe/Zurich', None][int(rng.integers(2))]
    hrs = sorted(int(h) for h in rng.choice(24, int(rng.integers(2, 7)), replace=False))
    # several rows per hour in days order; rows interleaved
    idx = pd.DatetimeIndex([pd.Timestamp('2024-01-08', tz=tz) + pd.Timedelta(days=d, hours=h) for d in range(nd) for h in hrs])
    errs = np.zeros((len(idx), K), dtype=int)
    for h in hrs:
        R = np.flatnonzero(idx.hour == h)
        if mid:
            base = np.array([1] * 10 + [-1] * 10)
            for k in range(K):
                col = base.copy()
                f = int(rng.integers(0, 11)) if cov == 'vanilla' else int(rng.integers(1, 10))
                # flip f of the positives and f of the negatives: balanced, correlation with base 1 - f/5
                a, b = rng.choice(10, f, replace=False), 10 + rng.choice(10, f, replace=False)
                col[a], col[b] = -1, 1
                errs[R, k] = col if k else base
        else:
            base = rng.choice(np.arange(-50, 50), nd, replace=False)
            for k in range(K):
                errs[R, k] = base * (1 if k == 0 else int(rng.choice([-3, -1, 1, 2]))) + int(rng.integers(-5, 5))
    # errors of a step can be much larger than those of another
    scale = rng.choice([1., 1., 3., 20.], K) if mid and rng.random() < .6 else np.ones(K)
    y = pd.DataFrame(errs * scale, index=idx, columns=['k%d' % k for k in range(K)])
    if rng.random() < .5:
        p = rng.permutation(len(idx))
        y, errs, idx = y.iloc[p], errs[p], idx[p]
    qv = np.linspace(0, 1, 5)
    sg = ScenGen(q_vect=qv, additional_node=False, **({} if cov == 'vanilla' else dict(cov_est_method=cov)))
    ev = []
    x0 = pd.DataFrame({'z': 0.}, index=idx)
    try:
        sg.fit(y.copy(), x0)
    except Exception as ex:
        ev.append(dict(op='fit', obs=dict(ok=False, err=err_name(ex))))
        return dict(id='dep/%s/%d' % (cov, seed % 1000), errs=[], errhours=[], ev=ev)
    for t in range(2):
        n = int(rng.integers(1, 7)) if not mid else int(rng.integers(1, 4))
        N = 700 if mid else [1, 2, 150][int(rng.integers(3))]
        xi = pd.DatetimeIndex([pd.Timestamp('2024-03-01', tz=tz) + pd.Timedelta(days=int(rng.integers(0, 3)), hours=int(rng.choice(hrs)), minutes=int(rng.choice([0, 15, 30]))) for _ in range(n)])
        x = pd.DataFrame({'z': 0.}, index=xi)
        rs = None if mid and False else int(rng.integers(1000))
        e = dict(op='mid' if mid else 'dep', slack=400 if cov == 'shrunk' and len(set(scale)) > 1 else dict(vanilla=0, glasso_cv=400).get(cov, 60), hours=[int(h) for h in xi.hour], nscen=N)
        try:
            qq, xx = rankquantiles(n, K, qv), x
            if rng.random() < .3:           # a table of quantiles by level and step carries its times
                qq = pd.concat({v: pd.DataFrame(qq[:, :, j], index=xi, columns=y.columns) for j, v in enumerate(qv)}, axis=1)
                xx = None if rng.random() < .7 else x
            s = sg.predict_scenarios(qq, n_scen=N, x=xx, random_state=rs)
            e['obs'] = dict(ok=True, shape=list(np.shape(s)), s=scen3(s, 1) if np.ndim(s) == 3 else [])
            np.random.seed(int(rng.integers(1 << 30)))
            s2 = (sg if rng.random() < .5 else pickle.loads(pickle.dumps(sg))).predict_scenarios(rankquantiles(n, K, qv), n_scen=N, x=x, random_state=rs)
            r = dict(op='repro', obs=dict(ok=True, a=mat(s, 1000), b=mat(s2, 1000)))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
            r = None
        ev.append(e)
        if r:
            ev.append(r)
    return dict(id='%s/K=%d hours=%s/%d' % ('mid ' + cov if mid else 'dep', K, hrs, seed % 1000), errs=errs.tolist(), errhours=[int(h) for h in idx.hour], ev=ev)


def c12_repro(seed):
    """whole forecasters: a fixed random state gives the same scenarios"""
    rng = np.random.default_rng(seed)
    n, K = 240, int(rng.integers(1, 4))
    x, y = data(rng, n, K, idx=index(rng, n, 'h'))
    add = bool(rng.random() < .3)
    kind = int(rng.integers(3))
    q = np.array([.1, .5, .9]) if rng.random() < .5 else np.array([.05, .25, .5, .75, .95])
    nodes = None if K == 1 else np.minimum(2 ** np.arange(K + add), 4)[-K:]
    if nodes is not None and not add:
        nodes[0] = 1
    mk = lambda **k: [lambda: LinearForecaster(**k), lambda: LGBForecaster(n_estimators=3, n_jobs=1, n_jobs_predict=1, **k),
                      lambda: QRF(n_estimators=3, min_samples_leaf=4, random_state=0, parallel=False, **k)][kind]()
    conf = dict(q_vect=q, additional_node=add, nodes_at_step=nodes)
    e = dict(op='repro')
    rs = int(rng.integers(100))
    try:
        m = mk(**conf).fit(x, y)
        xq = x.iloc[int(rng.integers(40)):][:int(rng.integers(1, 30))]
        N = int(rng.integers(1, 20))
        a = m.predict_scenarios(xq, n_scen=N, random_state=rs)
        np.random.seed(int(rng.integers(1 << 30)))
        b = m.predict_scenarios(xq, n_scen=N, random_state=rs)
        if rng.random() < .5:
            # the same configuration given afterwards
            m2 = mk()
            m2.set_params(**conf)
            m2.fit(x, y)
            b = m2.predict_scenarios(xq, n_scen=N, random_state=rs)
            if nodes is not None:
                count = lambda m: [sorted(nx.get_node_attributes(g, 't').values()) for g in [m.predict_trees(xq.iloc[[0]], n_scen=12, random_state=rs)]]
                if count(m) != count(m2):
                    raise ValueError('trees of a model configured by set_params have other nodes')
        e['obs'] = dict(ok=True, a=mat(a, 1000), b=mat(b, 1000)) if a.shape == (len(xq), K + add, N) else dict(ok=False, err='shape %s' % (a.shape,))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(id='repro/%d' % (seed % 1000), errs=[], errhours=[], ev=[e])


def c12(c):
    rng = c.rng('c12')
    S = lambda k: [int(s) for s in rng.integers(1 << 30, size=k)]
    tr = pmap(c12_interp, S(c.n(400, 4000))) + pmap(c12_dep, S(c.n(120, 1000))) + pmap(c12_repro, S(c.n(24, 200)))
    c.assumptions.append('the dependence is replaced by a user-defined one registered in COPULA_MAP where exact ranks are needed')
    c.validate('ScenTrace', tr, shards=8)


# =============================================================== C13
from pyforecaster.scenred import scenred, retrieve_scenarios_indexes
from pyforecaster.tree_builders import QuantileTree, ScenredTree
import pyforecaster.tree_builders as tree_builders


def gen_nodes(rng, T, N):
    k = [1] + sorted(int(v) for v in rng.integers(1, max(2, int(N * rng.choice([.4, 1, 1.2]))), T - 1))
    return k


def graph(g, find, n, scale=None):
    nodes = [[int(i), int(d['t']), rnd(d['p'], scale or n) if scale else (enc(d['p'], n)), find(int(d['t']), np.atleast_1d(d['v']))] for i, d in g.nodes(data=True)]
    return dict(nodes=nodes, edges=[[int(a), int(b)] for a, b in g.edges])


def c13_reduce(seed):
    rng = np.random.default_rng(seed)
    T, N, V = int(rng.integers(2, 6)), int(rng.integers(2, 15)), int(rng.choice([1, 1, 2]))
    X = np.stack([np.stack([rng.permutation(N * 4)[:N] for _ in range(T)]) for _ in range(V)], axis=-1).astype(float)
    if rng.random() < .3:      # random walks, so that merges are not arbitrary
        X = np.cumsum(X - X.mean(axis=1, keepdims=True), axis=0) + rng.permutation(N)[None, :, None] * 1e-4
    X = X * float(rng.choice([1, .001, 1000.]))
    if any(len(np.unique(X[t, :, v])) < N for t in range(T) for v in range(V)):
        X = np.stack([np.stack([rng.permutation(N) for _ in range(T)]) for _ in range(V)], axis=-1).astype(float)
    if V == 1 and rng.random() < .6:
        X = X[..., 0]
    elif V == 2 and rng.random() < .6:         # scenarios which agree in one variable but not in the other
        v = int(rng.integers(2))
        X[..., v] = X[..., v].min() + (X[..., v] - X[..., v].min()) // max((np.ptp(X[..., v]) / 2), 1e-9)
    exact = bool(rng.random() < .8)
    nodes = gen_nodes(rng, T, N)
    if exact and all(k == 1 for k in nodes):      # all ones is the default value, which stands for the tolerance rule
        nodes[-1] = 2
    form = ['array', 'list', 'int'][int(rng.integers(3))]
    arg = None if not exact else np.array(nodes) if form == 'array' else list(nodes) if form == 'list' else np.array(nodes, dtype=np.int32)
    if exact and rng.random() < .1:
        arg[0] = 2                                # documented: forced to one
    X0, arg0 = X.copy(), copy.deepcopy(arg)
    kw = dict(metric=['cityblock', 'euclidean'][int(rng.integers(2))], tol=float(rng.choice([.1, 1, 10])))
    Y = X if X.ndim == 3 else X[..., None]
    find = lambda t, v: next((s + 1 for s in range(N) if np.array_equal(Y[t, s], v)), 0)
    e = dict(op='reduce', n=N, T=T, exact=exact, nodes=nodes)

    def run(X):
        S, P, J, Me, g = scenred(X, nodes=copy.deepcopy(arg0), **kw)
        cols = [int(k) + 1 for k in np.flatnonzero(J[-1])]
        idx, leaves = retrieve_scenarios_indexes(g)
        vals = {int(i): find(int(d['t']), np.atleast_1d(d['v'])) for i, d in g.nodes(data=True)}
        o = dict(ok=True, cols=cols, S=[[find(t, S[t, c]) for c in range(S.shape[1])] for t in range(T)], P=[[enc(p, N) for p in r] for r in P],
                 J=[[bool(k) for k in r] for r in J], Me=[[[bool(k) for k in r] for r in m] for m in Me], paths=[[vals[int(idx[t, c])] for t in range(T)] for c in range(idx.shape[1])])
        o.update(graph(g, find, N))
        return o
    try:
        S = scenred(X, nodes=arg, **kw)
        mut = not np.array_equal(X, X0) or (exact and not (type(arg) is type(arg0) and np.array_equal(arg, arg0)))
        e['obs'] = dict(run(X), mutated=bool(mut))
        ev = [e, dict(op='same', what='a second reduction of the same scenarios differs', obs=dict(ok=True, a=run(X)['S'], b=e['obs']['S']))]
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
        ev = [e]
    return dict(id='reduce T=%d N=%d V=%d %s/%d' % (T, N, V, nodes if exact else 'tol', seed % 1000), ev=ev)


def c13_trees(seed):
    """trees of a scenario generator, online"""
    rng = np.random.default_rng(seed)
    K, R = int(rng.integers(2, 6)), int(rng.integers(1, 5))
    add = bool(rng.random() < .4)
    T = K + add
    N = int(rng.choice([K + 1, K + 2, 12, 30])) if rng.random() < .5 else int(rng.integers(10, 40))
    idx = index(rng, 48 * 6, 'h')
    errs = pd.DataFrame(rng.normal(size=(len(idx), K)).cumsum(axis=1), index=idx, columns=['e%d' % k for k in range(K)])
    qv = np.linspace(.1, .9, 5)
    nodes = gen_nodes(rng, K + 1, N)[1:] if add else gen_nodes(rng, K, N)
    full = [1] + nodes if add else nodes
    if all(k == 1 for k in full):
        full[-1] = nodes[-1] = 2
    where = ['ctor', 'call', 'default'][int(rng.integers(3))] if N >= 10 else ['ctor', 'call'][int(rng.integers(2))]
    form = (lambda v: np.array(v)) if rng.random() < .6 else list
    arg = form(nodes)
    arg0 = copy.deepcopy(arg)
    e = dict(op='tree', n=N, T=T, exact=where != 'default', nodes=full, rows=R, tol=1)
    other = None
    try:
        sg = ScenGen(q_vect=qv, additional_node=add, nodes_at_step=arg if where == 'ctor' else None)
        sg.fit(errs.copy(), pd.DataFrame({'z': 0.}, index=idx))
        xq = pd.DataFrame({'z': 0.}, index=idx[rng.permutation(len(idx))[:R]])
        q = np.sort(rng.normal(size=(R, K, 5)) * 10, axis=-1) + 100 * np.arange(K)[None, :, None]
        rs = int(rng.integers(1000))
        init = np.round(rng.normal(size=R) * 10, 2) if add and rng.random() < .7 else None
        sc = sg.predict_scenarios(q.copy(), n_scen=N, x=xq, random_state=rs, init_obs=init)
        kw = dict(nodes_at_step=arg) if where == 'call' else {}
        tr = []
        for rep in range(2):
            tr = sg.predict_trees(quantiles=q.copy(), n_scen=N, x=xq, random_state=rs, init_obs=init, **kw)
        obs = []
        for r, g in enumerate(tr):
            def find(t, v):
                if add and t == 0:
                    return 1 if abs(float(v[0]) - (init[r] if init is not None else 0)) < 1e-5 else 0
                d = np.abs(sc[r, t] - float(v[0]))
                return int(d.argmin()) + 1 if d.min() < 1e-6 else 0
            obs.append(graph(g, find, N))
        e['obs'] = dict(ok=True, trees=obs, mutated=not (type(arg) is type(arg0) and np.array_equal(arg, arg0)))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(id='tree K=%d N=%d add=%s %s %s/%d' % (K, N, add, where, nodes, seed % 1000), ev=[e])


def c13_qtree(seed):
    rng = np.random.default_rng(seed)
    T, N = int(rng.integers(2, 6)), int(rng.integers(*((20, 60) if rng.random() < .6 else (4, 20))))
    nodes = [1]
    for _ in range(T - 1):
        nodes.append(nodes[-1] * int(rng.choice([1, 2, 3, 4] if nodes[-1] < 4 else [1, 1, 2, 2])))
    S = np.stack([rng.permutation(N * 3)[:N] for _ in range(T)]) + 1000. * rng.permutation(T)[:, None]
    e = dict(op='qtree', n=N, T=T, scale=12, nodes=nodes, one=100000, scens=[[int(v) for v in r] for r in S])
    arg = np.array(nodes) if rng.random() < .5 else list(nodes)
    try:
        if rng.random() < .5:
            g, *_ = QuantileTree(nodes_at_step=arg).gen_tree(S.copy())
        else:
            g, *_ = QuantileTree().gen_tree(S.copy(), nodes_at_step=arg)
        e['obs'] = dict(ok=True, nodes=[[int(i), int(d['t']), rnd(d['p'], 100000), rnd(float(np.atleast_1d(d['v'])[0]), 12)] for i, d in g.nodes(data=True)], edges=[[int(a), int(b)] for a, b in g.edges])
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(id='qtree %s N=%d/%d' % (nodes, N, seed % 1000), ev=[e])


def c13_ties(seed):
    """scenarios which agree at some steps; reductions and trees of every kind"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (1 << 31))
    T, N = int(rng.integers(2, 6)), int(rng.integers(3, 15))
    kind = ['scenred', 'scenred', 'ScenredTree', 'QuantileTree', 'DiffTree', 'NeuralGas'][int(rng.integers(6))]
    V = int(rng.choice([1, 2])) if kind == 'scenred' else 1
    X = rng.normal(size=(T, N, V)).round(3) * 10
    for t in range(T):
        how = int(rng.integers(4))
        if how == 0:
            X[t] = 0                                            # as at night
        elif how == 1:
            X[t] = np.maximum(X[t], 0)
        elif how == 2:
            X[t] = rng.integers(0, 3, (N, V))
    if rng.random() < .3:
        X[:, int(rng.integers(N))] = X[:, int(rng.integers(N))]    # the same scenario twice
    quant = kind == 'QuantileTree' or (kind in ('DiffTree', 'NeuralGas') and rng.random() < .5)
    nodes = [1]
    while len(nodes) < T:
        nodes.append(min(N, nodes[-1] + int(rng.integers(0, 4))) if not quant else nodes[-1] * int(rng.choice([1, 2])))
    if all(k == 1 for k in nodes):
        nodes[-1] = 2
    find = lambda t, v: next((s + 1 for s in range(N) if np.allclose(X[t, s], v)), 0)
    # optimised trees leave the values of the scenarios
    e = dict(op='ties', n=N if not quant else nodes[-1], T=T, nodes=nodes, quant=bool(quant), kept=kind in ('scenred', 'ScenredTree'))
    S0 = X.copy() if kind == 'scenred' and V == 2 else X[..., 0].copy()
    S = S0.copy()
    try:
        if kind == 'scenred':
            P, g = (lambda r: (r[1], r[4]))(scenred(S, nodes=np.array(nodes), metric=['cityblock', 'euclidean'][int(rng.integers(2))]))
            o = dict(ok=True, err='', sums=[enc(v, N) for v in P.sum(axis=1)], scens=[], paths=[], vals=[], nodev=[])
        else:
            kw = {} if kind in ('ScenredTree', 'QuantileTree') else dict(base_tree='quantiles' if quant else 'scenred', init=['quantiles', 'zero', None][int(rng.integers(3))])
            grow = {} if kind in ('ScenredTree', 'QuantileTree') else dict(k_max=int(rng.integers(1, 12)), do_plot=False)
            b = getattr(tree_builders, kind)(nodes_at_step=np.array(nodes), **kw)
            start = None
            if kind != 'ScenredTree' and rng.random() < .3:
                start, *_ = b.gen_tree(S + rng.normal(size=S.shape), **grow)
                was = graph(start, lambda t, v: rnd(v[0], 1000), e['n'])
            g, ts, ti, tv = b.gen_tree(S, start_tree=start, **grow)
            v = {i: float(np.atleast_1d(d['v'])[0]) for i, d in g.nodes(data=True)}
            ti = np.asarray(ti)
            o = dict(ok=True, err='', sums=[e['n']] * T, scens=mat(np.asarray(ts, dtype=float), 1000), paths=mat([[v[int(i)] for i in r] for r in ti], 1000),
                     vals=[rnd(float(np.ravel(k)[0]), 1000) for k in tv], nodev=[rnd(v[i], 1000) for i in sorted(v)])
            if start is not None and graph(start, lambda t, v: rnd(v[0], 1000), e['n']) != was:
                o['sums'] = []
        o.update(graph(g, find if e['kept'] else (lambda t, v: 1 if np.isfinite(v).all() else 0), e['n']))
        o['mutated'] = bool(not np.array_equal(S, S0)) or o['sums'] == []
        e['obs'] = o
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(id='ties %s T=%d N=%d V=%d %s quant=%s/%d' % (kind, T, N, V, nodes, quant, seed % 1000), ev=[e])


def c13(c):
    c.design('Scenred', c.n('Scenred.cfg', 'Scenred_deep.cfg'), must_cover=('Merge', 'Down'))
    rng = c.rng('c13')
    S = lambda k: [int(s) for s in rng.integers(1 << 30, size=k)]
    tr = pmap(c13_reduce, S(c.n(500, 6000))) + pmap(c13_trees, S(c.n(120, 1200))) + pmap(c13_qtree, S(c.n(160, 1200))) + pmap(c13_ties, S(c.n(150, 1500)))
    c.validate('ScenredTrace', tr, shards=8)


# =============================================================== C14
def tree_of(g):
    return dict(nodes=[[int(i), int(d['t']), rnd(d['p'], 1000), rnd(float(np.atleast_1d(d['v'])[0]), 1000)] for i, d in sorted(g.nodes(data=True))], edges=sorted([int(a), int(b)] for a, b in g.edges))


def stored(m):
    """the stored trees by hour; hours without one are empty"""
    t = m.scengen.trees
    return [tree_of(t[k]) if k in t else dict(nodes=[], edges=[]) for k in range(24)] if t else []


def c14_item(item):
    seed, b = item
    rng = np.random.default_rng(seed)
    K = int(rng.integers(2, 5))
    add = bool(rng.random() < .4)
    kind = ['probe', 'linear'][int(rng.integers(2))]
    ttype = ['ScenredTree', 'ScenredTree', 'QuantileTree'][int(rng.integers(3))]
    NF = 16
    steps = K + add

    def some_nodes():
        k = [1] if not add else []
        while len(k) < K:
            k.append((k[-1] if k else 1) * int(rng.choice([1, 2])) if ttype == 'QuantileTree' else (k[-1] if k else 1) + int(rng.integers(0, 4)))
        if k[-1] == 1:
            k[-1] = 2
        return k
    given = rng.random() < .7
    nodes = some_nodes() if given else None
    full = (([1] if add else []) + nodes) if given else []
    kw = dict(nodes_at_step=np.array(nodes) if given else None, additional_node=add, online_tree_reduction=b['ctor']['online'], prefit_trees=b['ctor']['prefit'],
              tree_type=ttype, n_scen_fit=NF, q_vect=np.array([.1, .3, .5, .7, .9]), conditional_to_hour=bool(rng.random() < .8))
    par = bool(rng.random() < .25)
    if par:
        kw['parallel_preds'] = True
    q = {}
    m = QProbe(q=q, **kw) if kind == 'probe' else LinearForecaster(**kw)
    ev, x = [], None
    for h in b['h']:
        if h == 'fit':
            n = 24 * int(rng.integers(4, 7))
            x, y = data(rng, n, K, idx=index(rng, n, 'h'))
            if rng.random() < .3:           # only some hours of the day are ever observed
                some = rng.random(24) < .6
                some[rng.integers(24)] = True
                x, y = x[some[x.index.hour]], y[some[y.index.hour]]
                n = len(x)
            y = y + 40 * np.arange(n)[:, None] % 7          # hours differ
            x['id'] = np.arange(n)
            if kind == 'probe':
                q.clear()
                q.update({i: np.sort(rng.integers(-90, 90, (K, 5)), axis=1) for i in range(n)})
            e = dict(op='fit', hours=sorted({int(k) for k in x.index.hour}))
            try:
                m.fit(x.copy(), y.copy())
                e['obs'] = dict(ok=True, stored=stored(m))
            except Exception as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
        elif h in ('on', 'off'):
            m.online_tree_reduction = h == 'on'
            e = dict(op=h, obs=dict(ok=True))
        elif h == 'copy':
            e = dict(op=h)
            try:
                m = copy.deepcopy(m) if rng.random() < .5 else pickle.loads(pickle.dumps(m))
                if kind == 'probe':
                    q = m.q
                e['obs'] = dict(ok=True)
            except Exception as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
        else:
            R = int(rng.integers(1, 5 + 3 * par))
            xq = x.iloc[np.sort(rng.permutation(len(x))[:R])]
            if rng.random() < .3:
                xq = xq.iloc[rng.permutation(R)]
            if kind == 'linear' and rng.random() < .3:
                xq = xq.set_axis(xq.index + pd.Timedelta(minutes=10))
            P = m.predict(xq.copy())
            init = rng.integers(-500, 500, R) / 10. if add and rng.random() < .6 else None
            pn = some_nodes() if h == 'predN' else None
            e = dict(op='pred', hours=[int(k) for k in xq.index.hour], pred=mat(P, 1000), init=[rnd(v, 1000) for v in init] if init is not None else [],
                     nodes=(([1] if add else []) + pn) if pn else [])
            a = {} if pn is None else dict(nodes_at_step=np.array(pn))
            if init is not None:
                a['init_obs'] = [lambda v: v.copy(), list, lambda v: v[:, None].copy(), pd.Series, lambda v: pd.Series(v, index=xq.index), lambda v: pd.Series(v, index=np.arange(R)[::-1])][int(rng.integers(6))](init)
                init0 = copy.deepcopy(a['init_obs'])
            if rng.random() < .5:
                a['random_state'] = int(rng.integers(100))
            xc = xq.copy()
            try:
                with mock.patch('os.cpu_count', return_value=int(rng.integers(2, 5))):
                    tr = m.predict_trees(xc, n_scen=40, **a)
                tr = [tr] if R == 1 else list(tr)
                e['obs'] = dict(ok=True, trees=[tree_of(g) for g in tr], stored=stored(m),
                                mutated=not same_frame(xc, xq) or (init is not None and not np.array_equal(a['init_obs'], init0)))
                for g in tr:          # what a caller does with the trees it received is its own business
                    for i in g.nodes:
                        g.nodes[i]['v'] = g.nodes[i]['v'] * 0 - 7
            except Exception as ex:
                e['obs'] = dict(ok=False, kind=type(ex).__name__, err=err_name(ex))
        ev.append(e)
        if h == 'fit' and not e['obs']['ok']:
            break
    return dict(id='%s %s add=%s%s %s/%d' % (kind, ttype, add, ' parallel' * par, '-'.join(b['h']), seed % 1000), online=b['ctor']['online'], prefit=b['ctor']['prefit'], add=add, nodes=full, steps=steps, tol=4, ev=ev)


def c14(c):
    b4 = c.behaviours('TreeHist', 'TreeHist4.cfg')
    b5 = c.behaviours('TreeHist', c.n('TreeHist5.cfg', 'TreeHist6.cfg'))
    rng = c.rng('c14')
    pick = [b4[i] for i in rng.permutation(len(b4))[:c.n(150, len(b4))]] + [b5[i] for i in rng.permutation(len(b5))[:c.n(250, 3000)]]
    tr = pmap(c14_item, [(int(s), b) for s, b in zip(rng.integers(1 << 30, size=len(pick)), pick)])
    c.validate('TreeTrace', tr, shards=8)
