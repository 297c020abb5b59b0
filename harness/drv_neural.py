"""Conformance drivers of the neural forecasters: C25 (shapes of networks), C28 (forecaster interface)."""
import os, sys, copy, io, contextlib
import numpy as np, pandas as pd
from core import NA, BAD, enc, pmap
from fcst import index, err_name, same_frame, rnd, mat, lev

_READY = []


def nets():
    """import the networks, in a worker process: the parent must not have started jax before it forks"""
    if not _READY:
        d = os.path.join(os.environ['VERIF_NN_SCRATCH'], 'jax_%d' % os.getpid())
        os.environ.update(JAX_COMPILATION_CACHE_DIR=d, JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS='0', JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES='-1',
                          XLA_FLAGS='--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0', TQDM_DISABLE='1')
        import pyforecaster.forecasting_models.neural_models.base_nn as b
        import pyforecaster.forecasting_models.neural_models.ICNN as i
        import pyforecaster.forecasting_models.neural_models.INN as v
        _READY.extend([b, i, v])
    return _READY


def fit(m, x, y, seed=5, **kw):
    np.random.seed(seed)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return m.fit(x, y, **kw)


def energy(p, c):
    return (p ** 2).sum() + c.sum()


def build(cls, kw):
    b, i, v = nets()
    return getattr(i, cls, None)(**kw) if hasattr(i, cls) and cls != 'NN' else getattr(b, cls)(**kw) if hasattr(b, cls) else getattr(v, cls)(**kw)


def pick(rng, *a):
    return a[int(rng.integers(len(a)))]


def scaled(a, s):
    return [[rnd(v, s) for v in r] for r in np.asarray(a, dtype=float)]


def transport(rng, m, cls, kw, x, y, d):
    """the same network, after something that must not matter"""
    how = pick(rng, 'none', 'none', 'load', 'deepcopy', 'clone', 'refit')
    if how == 'load':
        f = os.path.join(d, 'net.pk')
        m.save(f)
        m = build(cls, dict(load_path=f, **({'objective_fun': energy} if cls == 'StructuredPICNN' else {}), **({'n_out': kw['n_out'], 'n_in': kw['n_in']} if cls == 'CausalInvertibleNN' else {})))
    elif how == 'deepcopy':
        m = copy.deepcopy(m)
    elif how == 'clone' and cls != 'StructuredPICNN':
        from sklearn.base import clone
        m = fit(clone(m), x, y)
    elif how == 'refit':
        m = fit(m, x, y)
    return m, how


def c25_dims(seed):
    """sizes, shared by several items: what is compiled for one can be used for the others"""
    rng = np.random.default_rng(seed)
    return dict(n=int(rng.integers(50, 90)), nx=int(rng.integers(1, 4)), nc=int(rng.integers(1, 4)), k=int(rng.integers(1, 4)), n_latent=int(rng.integers(1, 5)),
                n_layers=int(rng.integers(1, 4)), n_hidden_x=int(rng.integers(3, 9)), batch_size=int(pick(rng, 10, 20, 200)))


def c25_icnn(seed, dims):
    import tempfile
    rng = np.random.default_rng(seed)
    cls = pick(rng, 'PICNN', 'PICNN', 'PICNN', 'RecStablePICNN', 'PIQCNNSigmoid', 'PIQCNNSigmoid', 'StructuredPICNN')
    kind = 'convex' if cls in ('PICNN', 'RecStablePICNN') else 'monotone'
    n, nx, nc, k = dims['n'], dims['nx'], dims['nc'], dims['k']
    cols = ['c%d' % i for i in range(nx + nc)]
    cols = [cols[i] for i in rng.permutation(nx + nc)]
    ctrl = [cols[i] for i in rng.permutation(nx + nc)[:nc]]
    idx = index(rng, n, 'h')
    amp = int(pick(rng, 5, 20, 100))
    x = pd.DataFrame(rng.integers(-amp, amp + 1, (n, nx + nc)).astype(float), index=idx, columns=cols)
    # what the network must not follow: concave in, or decreasing with, the controls
    s = x[ctrl].values / amp
    shape = -10 * (s ** 2).sum(axis=1) if kind == 'convex' else -10 * s.sum(axis=1)
    y = pd.DataFrame({'y%d' % j: shape * (j + 1) + 3 * x[[c for c in cols if c not in ctrl][0]].values / amp + rng.normal(size=n) for j in range(k)}, index=idx)
    kw = dict(n_out=k, optimization_vars=ctrl, **{a: dims[a] for a in ('n_latent', 'n_layers', 'n_hidden_x', 'batch_size')},
              n_epochs=int(rng.integers(3, 9)), stats_step=int(pick(rng, 3, 50)), learning_rate=float(pick(rng, .03, .1)),
              stopping_rounds=100, rel_tol=-1e9 if rng.random() < .7 else 1e-4, conditional_to_hour=False)
    if rng.random() < .4:
        kw['unnormalized_inputs'] = [c for c in cols if rng.random() < .5] if rng.random() < .7 else list(cols)
    if rng.random() < .3:
        kw['normalize_target'] = False
    if rng.random() < .4:
        kw['subtract_mean_when_normalizing'] = True
    if rng.random() < .4:
        kw['init_type'] = 'uniform'
    if rng.random() < .4:
        kw['val_ratio'] = .3
    if cls == 'PICNN' and rng.random() < .4:
        kw['augment_ctrl_inputs'] = True
    if cls != 'StructuredPICNN' and rng.random() < .3:
        kw.update(probabilistic=True, probabilistic_loss_kind=pick(rng, 'maximum_likelihood', 'crps'))
    if cls == 'PICNN' and rng.random() < .25:
        kw['causal_df'] = pd.DataFrame(np.tril(np.ones((nc, k))), index=ctrl, columns=y.columns)
    if cls == 'StructuredPICNN':
        kw['objective_fun'] = energy
    lo, hi = [], []
    if rng.random() < .25 and not kw.get('probabilistic'):
        kw['normalize_target'] = False
        lo = [float(v) for v in rng.integers(-12, 0, k)]
        hi = [float(v) for v in rng.integers(1, 9, k)]
        kw.update(z_min=lo, z_max=hi)
        kind = 'bounded' if kind == 'convex' else kind
    t = dict(id='%s/%d' % (cls, seed % 100000), kind=kind, cols=cols, ctrl=ctrl, ycols=list(y.columns), tol=60, scale=1, lo=[], hi=[], _kw=str(kw), ev=[])
    e = dict(op='fit')
    t['ev'].append(e)
    try:
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_NN_SCRATCH']) as d:
            m, t['_how'] = transport(rng, fit(build(cls, kw), x, y), cls, kw, x, y, d)
        e['obs'] = dict(ok=True)
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
        return t
    lines = []
    for _ in range(14):
        np_ = 9
        base = rng.integers(-amp, amp + 1, nx + nc)
        dirn = rng.integers(-amp // 3 - 1, amp // 3 + 2, nc) if kind != 'monotone' else rng.integers(0, amp // 3 + 2, nc)
        if rng.random() < .4:
            j = int(rng.integers(nc))
            dirn = np.array([max(1, abs(int(v))) if i == j else 0 for i, v in enumerate(dirn)])
        base = [int(v) for v in base]
        for i, c in enumerate(ctrl):           # lines run through the range of the controls
            base[cols.index(c)] -= 4 * int(dirn[i])
        rows = [[base[c] + (p * int(dirn[ctrl.index(cols[c])]) if cols[c] in ctrl else 0) for c in range(len(cols))] for p in range(np_)]
        f = pd.DataFrame(np.array(rows, dtype=float), index=index(rng, np_, 'h'), columns=cols)
        ev = dict(op='line', base=base, dir=[int(v) for v in dirn], rows=rows)
        try:
            v = m.predict(f)
            ev['_v'] = v.values
            ev['obs'] = dict(ok=True, cols=[str(c) for c in v.columns], index=bool(v.index.equals(f.index)))
        except Exception as ex:
            ev['obs'] = dict(ok=False, err=err_name(ex))
        lines.append(ev)
    a = [np.abs(ev['_v']).max() for ev in lines if '_v' in ev and np.isfinite(ev['_v']).all()] + [np.abs(lo + hi).max() if lo else 0]
    S = 1e6 / max(max(a), 1e-9)
    for ev in lines:
        if '_v' in ev:
            ev['obs']['v'] = scaled(ev.pop('_v'), S)
    t['lo'], t['hi'] = [rnd(v, S) for v in lo], [rnd(v, S) for v in hi]
    t['ev'] += lines
    # controls which make an objective least
    t['scale'] = SO = 1000
    for _ in range(2):
        base = [int(v) for v in rng.integers(-amp, amp + 1, nx + nc)]
        f = pd.DataFrame([base], index=index(rng, 1, 'h'), columns=cols, dtype=float)
        goal = rng.integers(-2, 3, nc).astype(float)
        fc = f.copy()
        sc = np.array([1.0 if c in (kw.get('unnormalized_inputs') or []) else x[c].std(ddof=0) for c in ctrl])
        mu = np.array([x[c].mean() if kw.get('subtract_mean_when_normalizing') and c not in (kw.get('unnormalized_inputs') or []) else 0 for c in ctrl])
        far = rng.random() < .6 and cls != 'StructuredPICNN'
        reach = bool(np.all(np.abs((np.array([base[cols.index(c)] for c in ctrl]) - mu) / sc - goal) < 4))
        ev = dict(op='optimize', base=base, goal=[rnd(v, SO) for v in goal * sc + mu] if far and reach else [], within=[rnd(.25 * v, SO) for v in sc])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if far:
                    yo, inp, tgt, _ = m.optimize(f, lambda p, c, aim=None: ((c - aim) ** 2).sum(), n_iter=300, rel_tol=-1e9, aim=goal)
                else:
                    yo, inp, tgt, _ = m.optimize(f, lambda p, c: (p ** 2).mean(), n_iter=20)
            ev['obs'] = dict(ok=True, mutated=not same_frame(f, fc), cols=[str(c) for c in inp.columns], index=bool(inp.index.equals(f.index) and tgt.index.equals(f.index)),
                             inputs=scaled(inp.values, SO)[0], yopt=[rnd(v, SO) for v in np.ravel(yo)], target=scaled(tgt, SO)[0], again=scaled(m.predict(inp), SO)[0])
        except Exception as ex:
            ev['obs'] = dict(ok=False, err=err_name(ex))
        t['ev'].append(ev)
    t['tol'] = 60
    return t


def c25_inn(seed):
    import tempfile
    import matplotlib.pyplot as plt
    rng = np.random.default_rng(seed)
    nin, n = int(rng.integers(2, 9)), int(rng.integers(50, 90))
    mode = pick(rng, 'none', 'none', 'none', 'quasi', 'full')
    cols = ['c%d' % i for i in rng.permutation(nin)]
    idx = index(rng, n, 'h')
    amp = int(pick(rng, 4, 30, 500))
    x = pd.DataFrame(rng.integers(-amp, amp + 1, (n, nin)).astype(float), index=idx, columns=cols)
    k = nin if mode == 'none' else int(rng.integers(1, nin))
    exo = [cols[i] for i in rng.permutation(nin)[:int(rng.integers(0, nin - k + 1))]] if mode != 'none' else []
    y = pd.DataFrame(x.values[:, :k] / 2 + rng.normal(size=(n, k)), index=idx, columns=cols if mode == 'none' else ['y%d' % j for j in range(k)])
    kw = dict(n_in=nin, n_out=k, n_layers=int(rng.integers(1, 5)), n_epochs=int(rng.integers(1, 9)), batch_size=int(pick(rng, 10, 25, 300)), learning_rate=float(pick(rng, .001, .02)),
              stats_step=int(pick(rng, 3, 50)), rel_tol=-1e9, stopping_rounds=99, end_to_end=mode, conditional_to_hour=False)
    if mode != 'none':
        kw.update(n_prediction_layers=int(rng.integers(1, 3)), n_hidden_y=6, scaling_factor=float(pick(rng, .1, 1.0)))
        if exo:
            kw['names_exogenous'] = exo
    t = dict(id='INN-%s/%d' % (mode, seed % 100000), kind=mode, cols=cols, ctrl=[], ycols=list(y.columns), tol=60, scale=1, lo=[], hi=[], _kw=str(kw), ev=[])
    e = dict(op='fit')
    t['ev'].append(e)
    try:
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_NN_SCRATCH']) as d:
            m, t['_how'] = transport(rng, fit(build('CausalInvertibleNN', kw), x, y), 'CausalInvertibleNN', kw, x, y, d)
        e['obs'] = dict(ok=True)
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
        return t
    if mode == 'none':
        for f in (1, 1, 20, 1000):
            q = pd.DataFrame(rng.integers(-amp, amp + 1, (int(pick(rng, 1, 5, 5)), nin)) * float(f), columns=cols)
            q.index = index(rng, len(q), '2h')
            S = 1e6 / max(np.abs(q.values).max(), 1)
            ev = dict(op='invert', x=scaled(q, S), tol=400)
            try:
                p = m.predict(q)
                pc = p.copy()
                b = m.invert(p)
                ev['obs'] = dict(ok=True, index=bool(b.index.equals(q.index) and list(b.columns) == cols and same_frame(p, pc)), back=scaled(b, S))
            except Exception as ex:
                ev['obs'] = dict(ok=False, err=err_name(ex))
            t['ev'].append(ev)
        q = pd.DataFrame(rng.integers(-amp, amp + 1, (5, nin)).astype(float), index=index(rng, 5, 'h'), columns=cols)
        for j in range(nin):
            ev = dict(op='causal', j=j + 1, by=amp)
            try:
                r = q.copy()
                r.iloc[:, j] += amp
                a, b = m.predict(q).values, m.predict(r).values
                S = 1e6 / max(np.abs(a).max(), np.abs(b).max())
                ev['obs'] = dict(ok=True, base=scaled(a, S), moved=scaled(b, S))
            except Exception as ex:
                ev['obs'] = dict(ok=False, err=err_name(ex))
            t['ev'].append(ev)
    else:
        q = pd.DataFrame(rng.integers(-amp, amp + 1, (5, nin)).astype(float), index=index(rng, 5, 'h'), columns=cols)
        ev = dict(op='order', tol=300)
        rest = [c for c in cols if c not in exo]
        moved = list(rest)
        for c in exo:
            moved.insert(int(rng.integers(len(moved) + 1)), c)
        try:
            a, b = m.predict(q), m.predict(q[moved])
            S = 1e6 / max(np.abs(a.values).max(), np.abs(b.values).max(), 1e-6)
            ev['obs'] = dict(ok=True, cols=[str(c) for c in a.columns], index=bool(a.index.equals(q.index)), v=scaled(a, S), moved=scaled(b, S))
        except Exception as ex:
            ev['obs'] = dict(ok=False, err=err_name(ex))
        t['ev'].append(ev)
        plt.close('all')
    return t


def c25_item(it):
    kind, seed, many = it
    seeds = [int(s) for s in np.random.default_rng(seed).integers(1 << 30, size=many)]
    return [c25_icnn(s, c25_dims(seed)) if kind == 'icnn' else c25_inn(s) for s in seeds]


def c25(c):
    c.design('NetworkMC', 'NetworkMC_deep.cfg' if c.thorough else 'NetworkMC.cfg', must_cover=['TrainWeight', 'TrainGate', 'TrainKernel'])
    os.environ['VERIF_NN_SCRATCH'] = c.scratch
    rng = c.rng('c25')
    items = [('icnn', int(s), 4) for s in rng.integers(1 << 30, size=c.n(16, 160))] + [('inn', int(s), 2) for s in rng.integers(1 << 30, size=c.n(8, 80))]
    tr = [t for ts in pmap(c25_item, items) for t in ts]
    c.validate('NetTrace', tr, shards=4, keyfn=lambda t, s, cl: cl)


# =============================================================== C28
MULTI = np.array([-2, -1, 0, 0, 0, 0, 0, 0, 1, 2.])          # mean 0, variance 1
LEVELS = [1, 5, 10, 20, 25, 30, 40, 50, 60, 75, 80, 90, 95, 99]


def exact(rng, n, names, score=None):
    """columns whose mean and standard deviation are exact: mean + std * z"""
    mean, std = rng.integers(-20, 21, len(names)).astype(float), np.array([float(pick(rng, 1, 2, 4, 8)) for _ in names])
    z = np.sort(np.tile(MULTI, n // 10))
    Z = np.empty((n, len(names)))
    for j in range(len(names)):
        Z[np.argsort(score[:, j] + rng.normal(size=n) * .3, kind='stable') if score is not None else rng.permutation(n), j] = z
    return Z, mean, std


def c28_data(rng, cols, k, n, name):
    idx = index(rng, n, pick(rng, 'h', 'h', '30min', '3h'))
    zx, mx, sx = exact(rng, n, cols)
    ys = ['%s%d' % (name, j) for j in range(k)]
    zy, my, sy = exact(rng, n, ys, zx @ rng.normal(size=(len(cols), k)))
    f = lambda a, c: pd.DataFrame(a, index=idx, columns=c)
    return dict(x=f(mx + sx * zx, cols), y=f(my + sy * zy, ys), zx=f(zx, cols), zy=f(zy, ys), mx=mx, sx=sx, my=my, sy=sy)


def c28_space(rng, cls, cols, k):
    lv = lambda: np.array(sorted(rng.choice(LEVELS, int(rng.integers(2, 5)), replace=False))) / 100
    s = dict(n_layers=[1, 2, 3], n_hidden_x=[4, 7], learning_rate=[.003, .03], batch_size=[10, 20, 500, None], n_epochs=[2, 4], stats_step=[3, 50], q_vect=[lv(), lv()],
             val_ratio=[None, .25, .5])
    if cls == 'INN':
        s.update(n_layers=[1, 2, 3])
        s.pop('n_hidden_x')
        return s
    s.update(normalize_target=[True, True, False], subtract_mean_when_normalizing=[True, False], unnormalized_inputs=[None, cols[:1], list(cols)])
    if cls in ('FFNN', 'LSTMNN'):
        s.update(**dict(split_heads=[True, False], skip_connection=[True, False]) if cls == 'FFNN' else {})
        return s
    s.update(n_latent=[1, 2, 4], optimization_vars=[[cols[0]], [cols[2], cols[1]]], init_type=['normal', 'uniform'], inverter_learning_rate=[.1, .05])
    if cls == 'PICNN':
        s.update(augment_ctrl_inputs=[True, False])
    if cls == 'LatentStructuredPICNN':
        s.update(n_embeddings=[3, 6], n_encoder_layers=[1, 2], n_decoder_layers=[1, 3])
    if cls == 'PIQCNN':
        s.update(n_layers=[2, 3])
    return s


def c28_item(item):
    import tempfile
    cls, seed, hists = item
    rng = np.random.default_rng(seed)
    nets()
    k = int(rng.integers(1, 4))
    cols = ['f%d' % i for i in rng.permutation(4)]
    name = 'CausalInvertibleNN' if cls == 'INN' else cls
    fixed = dict(n_out=k, conditional_to_hour=bool(rng.random() < .6), rel_tol=float(pick(rng, 1e-4, -1e9)), stopping_rounds=int(pick(rng, 2, 50)))
    if cls == 'INN':
        k = fixed['n_out'] = 4
        fixed['n_in'] = 4
    prob = cls in ('PICNN', 'RecStablePICNN', 'PIQCNNSigmoid') and rng.random() < .4
    if prob:
        fixed.update(probabilistic=True, probabilistic_loss_kind=pick(rng, 'maximum_likelihood', 'crps'))
    space = c28_space(rng, cls, cols, k)
    bounds = cls in ('PICNN', 'PIQCNNSigmoid') and not prob and rng.random() < .25
    if bounds:
        fixed.update(z_min=[-1.5] * k, z_max=[2.5] * k)
    p0 = {a: v[int(rng.integers(len(v)))] for a, v in space.items()}
    if cls != 'INN' and rng.random() < .3:
        p0['val_ratio'] = .5
    p1 = dict(p0)
    for a in list(space):
        if rng.random() < .5:
            p1[a] = space[a][int(rng.integers(len(space[a])))]
    if not any(p1[a] is not p0[a] for a in space):
        p1['n_epochs'] = 6 - p0['n_epochs']
    pars = [p0, p1]
    D = {'A': c28_data(rng, cols, k, 60, 'y'), 'B': c28_data(rng, cols, k, 50, 'z')}
    npool = 12
    pool = pd.DataFrame(D['A']['x'].values[rng.permutation(60)[:npool]], index=index(rng, npool, pick(rng, 'h', '5h', '15min')), columns=cols)
    pos = {t: i + 1 for i, t in enumerate(pool.index)}
    S, tol = 1000, 4
    mk = lambda p: build(name, {**pars[p], **fixed})

    def train(m, d):
        x, y = D[d]['x'].copy(), D[d]['y'].copy()
        fit(m, x, y)
        return not (same_frame(x, D[d]['x']) and same_frame(y, D[d]['y']))

    def quant(m, x):
        q = m.predict_quantiles(x)
        return np.asarray(q if not isinstance(q, pd.DataFrame) else m.quantiles_to_numpy(q)).reshape(len(x), -1)

    fresh, twins = {}, []

    def fresh_ev(p, d):
        if (p, d) in fresh:
            return fresh[p, d]
        q = pars[p]['q_vect']
        vr = pars[p]['val_ratio']
        n = len(D[d]['x'])
        ev = dict(op='fresh', p=p, d=d, ycols=list(D[d]['y'].columns), levels=[int(round(100 * v)) for v in q], prob=bool(prob), n=n,
                  num=-1 if vr is None else 1, den=1 if vr is None else int(round(1 / vr)), cond=fixed['conditional_to_hour'],
                  hours=[int(t.hour) for t in D[d]['x'].index], poolhours=[int(t.hour) for t in pool.index], y=mat(D[d]['y'], S), mustlearn=False, learned=True)
        try:
            m = mk(p)
            mut = train(m, d)
            xp = pool.copy()
            v, qh = m.predict(xp), quant(m, xp)
            sg = m.predict(xp, return_sigma=True)[1] if prob else None
            ev.update(pred=mat(m.predict(D[d]['x'].copy()), S))
            ev['obs'] = dict(ok=True, mutated=mut or not same_frame(xp, pool), cols=[str(c) for c in v.columns], v=mat(v, S), q=mat(qh, S), sigma=mat(sg, S) if prob else [])
        except Exception as ex:
            ev['obs'] = dict(ok=False, err=err_name(ex))
        fresh[p, d] = ev
        if cls != 'INN' and ev['obs']['ok'] and len(twins) < 2:
            twins.append(twin_ev(p, d))
        return ev

    def twin_ev(p, d):
        """the same network, trained on data normalised beforehand"""
        q = pars[p]
        un = q['unnormalized_inputs'] or []
        nt, sub = q['normalize_target'], q['subtract_mean_when_normalizing']
        sh = lambda x: pd.DataFrame({c: x[c] if c in un else (x[c] - (D[d]['mx'][i] if sub else 0)) / D[d]['sx'][i] for i, c in enumerate(cols)}, index=x.index)
        ev = dict(op='twin', p=p, d=d, mean=[rnd(v, S) if nt else 0 for v in D[d]['my']], std=[int(v) if nt else 1 for v in D[d]['sy']])
        try:
            m = build(name, {**q, **fixed, 'normalize_target': False, 'unnormalized_inputs': list(cols)})
            fit(m, sh(D[d]['x']), D[d]['zy'].copy() if nt else D[d]['y'].copy())
            w = m.predict(sh(pool))
            ev['obs'] = dict(ok=True, mutated=False, w=mat(w, S), s=mat(m.predict(sh(pool), return_sigma=True)[1], S) if prob else [])
        except Exception as ex:
            ev['obs'] = dict(ok=False, err=err_name(ex))
        return ev

    def other(cur):
        """an object which differs in all that it can, and was fitted"""
        q = {}
        for a, v in space.items():
            now = pars[cur][a]
            far = [w for w in v if (w is None) != (now is None)] or [w for w in v if not np.array_equal(w, now)] or list(v)
            q[a] = far[int(rng.integers(len(far)))]
        q['n_epochs'] = 1
        if 'optimization_vars' in q:
            q['optimization_vars'] = pars[cur]['optimization_vars']
        m = build(name, {**q, **fixed})
        if rng.random() < .7:
            train(m, pick(rng, 'A', 'B'))
        return m

    traces = []
    for h in hists:
        ev, need, cur, fitted, file = [], [], 0, None, None
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_NN_SCRATCH']) as tmp:
            try:
                op = 'new'
                m = mk(0)
                for op in h:
                    if op == 'set':
                        cur = 1 - cur
                        m.set_params(**{a: v for a, v in pars[cur].items() if pars[0][a] is not pars[1][a]})
                        ev.append(dict(op='set', obs=dict(ok=True, mutated=False)))
                    elif op.startswith('fit'):
                        d = op[3:]
                        if (cur, d) not in need:
                            need.append((cur, d))
                        ev.append(dict(op='fit', d=d, obs=dict(ok=True, mutated=train(m, d))))
                    elif op == 'copy':
                        if hasattr(m, 'optimize') and getattr(m, 'pars', None) is not None and ev and ev[-1]['op'] in ('pred', 'predq'):
                            with contextlib.redirect_stdout(io.StringIO()):
                                m.optimize(pool.iloc[[0]].copy(), lambda p, c: (p ** 2).mean(), n_iter=10)
                        m = copy.deepcopy(m)
                        ev.append(dict(op='copy', obs=dict(ok=True, mutated=False)))
                    elif op == 'clone':
                        from sklearn.base import clone
                        m = clone(m)
                        ev.append(dict(op='clone', obs=dict(ok=True, mutated=False)))
                    elif op == 'save':
                        m.save(os.path.join(tmp, 'net.pk'))
                        file = cur
                        ev.append(dict(op='save', obs=dict(ok=True, mutated=False)))
                    elif op == 'load':
                        cur = file
                        how = rng.random()
                        if how < .4:
                            m = other(cur)
                            m.load(os.path.join(tmp, 'net.pk'))
                        elif how < .7:
                            m = build(name, dict(load_path=os.path.join(tmp, 'net.pk'), **{a: fixed[a] for a in ('n_out', 'n_in') if a in fixed and cls == 'INN'}))
                        else:
                            m.load(os.path.join(tmp, 'net.pk'))
                        ev.append(dict(op='load', obs=dict(ok=True, mutated=False)))
                    else:
                        rows = [int(r) for r in pick(rng, [int(rng.integers(npool))], list(range(npool)), rng.permutation(npool)[:5], rng.permutation(npool))]
                        xp = pool.iloc[rows]
                        xc = xp.copy()
                        if op == 'pred':
                            v = m.predict(xp)
                            o = dict(rows=[pos.get(t, 0) for t in v.index], cols=[str(c) for c in v.columns])
                        else:
                            v, o = quant(m, xp), {}
                        ev.append(dict(op=op, rows=[r + 1 for r in rows], obs=dict(ok=True, mutated=not same_frame(xp, xc), v=mat(v, S), **o)))
                    if op in ('set', 'load'):
                        g = m.get_params()
                        eq = lambda p: all(np.array_equal(g[a], p[a]) for a in p if a in g)
                        ev.append(dict(op='get', obs=dict(ok=True, mutated=False, p=cur if eq(pars[cur]) else -1)))
            except Exception as ex:
                ev.append(dict(op='fit' if op[:3] == 'fit' else op, d='', rows=[], obs=dict(ok=False, err=err_name(ex))))
        first = [fresh_ev(p, d) for p, d in need]
        traces.append(dict(id='%s/%d/%s' % (cls, seed % 100000, '-'.join(h)), npool=npool, tol=tol, _pars=str(pars) + str(fixed),
                           ev=first + [t for t in twins if (t['p'], t['d']) in need] + ev))
    return traces


def c28_norm(seed):
    """a formatter that normalises the targets"""
    from drv_forecaster import normalised
    rng = np.random.default_rng(seed)
    nets()
    f, x, y, _ = normalised(rng, int(rng.integers(50, 70)))
    ratio = '/' in f.normalizing_fun
    if ratio and x['m'].abs().min() < .5:
        ratio = None
    cls = pick(rng, 'FFNN', 'PICNN', 'PIQCNNSigmoid')
    kw = dict(n_out=3, n_epochs=2, n_hidden_x=5, n_layers=2, batch_size=20, conditional_to_hour=False, val_ratio=.3, normalize_target=bool(rng.random() < .5))
    prob = cls == 'PICNN' and rng.random() < .6
    if cls != 'FFNN':
        kw.update(optimization_vars=list(x.columns[:2]), n_latent=2, probabilistic=bool(prob))
    e = dict(op='norm', ratio=bool(ratio), tol=60, m=[rnd(v, 1000) for v in x['m']])
    try:
        a, b = build(cls, dict(kw, formatter=f)), build(cls, kw)
        fit(a, x.copy(), y.copy())
        fit(b, x.copy(), y.copy())
        v, w = (a.predict(x), b.predict(x)) if not prob else (a.predict(x, return_sigma=True), b.predict(x, return_sigma=True))
        e['obs'] = dict(ok=True, mutated=False, v=mat(v[0] if prob else v, 1000), w=mat(w[0] if prob else w, 1000), sigma=mat(v[1], 1000) if prob else [], ws=mat(w[1], 1000) if prob else [])
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return [dict(id='norm/%s/%d' % (cls, seed % 100000), npool=0, tol=4, ev=[] if ratio is None else [e])]


def c28_any(item):
    return c28_norm(item[1]) if item[0] == 'norm' else c28_item(item)


def c28(c):
    c.design('NeuralHist', 'NeuralHist6.cfg' if c.thorough else 'NeuralHist5.cfg', must_cover=['SetParams', 'Copy', 'Clone', 'Save', 'Load'])
    os.environ['VERIF_NN_SCRATCH'] = c.scratch
    hists = [b['h'] for b in c.behaviours('NeuralHist', 'NeuralHist%d.cfg' % c.n(5, 6))]
    rng = c.rng('c28')
    w = np.array([1.0 + 2 * sum(o.startswith('fit') for o in h) + 2 * ('set' in h) + 2 * ('clone' in h) + 4 * ('load' in h) for h in hists])
    items = []
    for r in range(c.n(2, 12)):
        for cls in ('FFNN', 'FFNN', 'PICNN', 'PICNN', 'RecStablePICNN', 'PIQCNN', 'PIQCNNSigmoid', 'INN', 'LSTMNN', 'LatentStructuredPICNN'):
            items.append((cls, int(rng.integers(1 << 30)), [hists[i] for i in rng.choice(len(hists), c.n(6, 10), replace=False, p=w / w.sum())]))
    items += [('norm', int(rng.integers(1 << 30)), []) for _ in range(c.n(6, 40))]
    tr = [t for ts in pmap(c28_any, items) for t in ts]
    c.validate('NeuralTrace', tr, shards=4, keyfn=lambda t, s, cl: cl)
