"""Conformance drivers of the formatter properties (specs: Windows, Formatter, FormatterTrace, Calendar..)."""
import copy, os, pickle, itertools
from unittest import mock
import numpy as np, pandas as pd
from core import NA, BAD, enc, pmap
import fake_ray
fake_ray.install()
from pyforecaster.formatter import Formatter, Transformer

NOLAG = NOBIN = -9999
TICKS = [('s', 1), ('s', 20), ('min', 1), ('min', 5), ('min', 30), ('h', 1)]


def poly(x):
    a = np.asarray(x, dtype=float)
    return float(np.dot(np.arange(1, len(a) + 1), a))


# ------------------------------------------------------------------ naming and projection
def hr(td):
    s = int(pd.Timedelta(td).total_seconds())
    d, s = divmod(s, 86400)
    h, s = divmod(s, 3600)
    m, s = divmod(s, 60)
    return ('%dd' % d) * (d > 0) + ('%dh' % h) * (h > 0) + ('%dm' % m) * (m > 0) + ('%ds' % s) * (s > 0)


def steps(tr, dt):
    if tr['bins']:
        return tr['bins'][0] - tr['bins'][-1]
    return {'none': 1, 'int': tr['agg']}.get(tr['aggkind'], -(-tr['agg'] // dt))


def colname(tr, dt, tick, name, fun, lag, b0, b1):
    s = name
    if tr['funs']:
        if tr['bins']:
            s = '%s_%s_%d_%d' % (name, fun, b0, b1)
        else:
            ag = tr['_aggstr'] if tr['aggkind'] == 'time' and tr['_aggstr'] else hr(tick * (steps(tr, dt) * dt if tr['aggkind'] != 'time' else tr['agg']))
            s = '%s_%s_%s' % (name, ag, fun)
    if lag != NOLAG:
        s += '_lag_%03d' % lag if lag >= 0 else '_lag_%04d' % lag
    return s


def descriptors(tr, dt, tick):
    """set of (column name -> descriptor) the configuration asks for (the order is the specification's business)"""
    r = {}
    bins = list(zip(tr['bins'], tr['bins'][1:])) if tr['bins'] else [(NOBIN, NOBIN)]
    for name in tr['names']:
        for fun in tr['funs'] or ['none']:
            for lag in (tr['lags'] if tr['haslags'] else [NOLAG]):
                for b0, b1 in bins:
                    r[colname(tr, dt, tick, name, fun, lag, b0, b1)] = dict(name=name, fun=fun, lag=int(lag), b0=int(b0), b1=int(b1))
    return r


def scaled(vals, fun, w):
    out = []
    for v in vals:
        try:
            v = float(v)
        except Exception:
            out.append(BAD)
            continue
        if np.isnan(v):
            out.append(NA)
        elif fun == 'mean':
            out.append(enc(v * w))
        elif fun == 'median':
            out.append(enc(v * 2))
        elif fun == 'var':
            out.append(enc(v * w * (w - 1)))
        elif fun == 'std':
            out.append(enc(v * v * w * (w - 1)))
        else:
            out.append(enc(v))
    return out


def width(tr, dt, d):
    return (d['b0'] - d['b1']) if d['b0'] != NOBIN else steps(tr, dt)


# ------------------------------------------------------------------ configurations
def gen_tr(rng, names, dts, tick, target=False, lagmax=5, bins_ok=True, funs_pool=None):
    """dts: the sampling times (ticks) it will be used with"""
    mult = int(np.lcm.reduce(dts))
    names = [str(s) for s in rng.permutation(names)[:rng.integers(1, min(3, len(names)) + 1)]]
    kind = rng.choice(['lagonly', 'agg', 'agg', 'bins'] if bins_ok else ['lagonly', 'agg', 'agg'])
    pool = funs_pool or ['mean', 'sum', 'max', 'min', 'poly', 'median', 'var', 'std']
    tr = dict(names=names, funs=[], aggkind='none', agg=0, haslags=False, lags=[], rel=False, bins=[], nested=True, _aggstr='')
    if kind == 'bins':
        tr['nested'] = bool(rng.random() < .6)
        k = rng.integers(2, 5)
        b = sorted(rng.choice(np.arange(0, 8), k, replace=False).tolist(), reverse=True)
        tr['bins'] = [int(i) for i in b]
        if not tr['nested']:
            pool = [f for f in pool if f not in ('var', 'std')]
        tr['_binsasc'] = bool(rng.random() < .5)
    if kind != 'lagonly':
        tr['funs'] = [str(f) for f in rng.permutation(pool)[:rng.integers(1, 4)]]
    if kind == 'agg':
        tr['aggkind'] = str(rng.choice(['none', 'int', 'time', 'time']))
    elif kind == 'lagonly' and rng.random() < .4:
        tr['aggkind'] = str(rng.choice(['int', 'time']))
    if tr['aggkind'] == 'int':
        tr['agg'] = int(rng.integers(1, 5))
    elif tr['aggkind'] == 'time':
        tr['agg'] = int(rng.integers(1, 5)) * mult
        if rng.random() < .25:      # window that is no multiple of the sampling time
            tr['agg'] += int(rng.integers(0, mult))
        secs = int((tick * tr['agg']).total_seconds())
        opts = ['']
        opts.append('%ds' % secs)
        if secs % 60 == 0:
            opts.append('%dmin' % (secs // 60))
        if secs % 3600 == 0:
            opts.append('%dh' % (secs // 3600))
        tr['_aggstr'] = str(rng.choice(opts))
    if kind == 'lagonly' or rng.random() < .7:
        tr['haslags'] = True
        lo = -lagmax if (target or rng.random() < .3) else 0
        hi = (0 if target and rng.random() < .7 else lagmax)
        pool_l = np.arange(lo, hi + 1)
        k = int(rng.integers(1, min(4, len(pool_l)) + 1))
        tr['lags'] = [int(i) for i in rng.permutation(pool_l)[:k]]
        tr['rel'] = bool(rng.random() < .35)
        if tr['rel']:
            tr['lags'] = sorted(set(int(i) % 3 if i >= 0 else -(int(-i) % 3) for i in tr['lags']), reverse=bool(rng.random() < .5))
        tr['_lagform'] = str(rng.choice(['list', 'array', 'tuple']))
    return tr


def kwargs(tr, tick):
    funs = [poly if f == 'poly' else f for f in tr['funs']] if tr['funs'] else None
    lags = None
    if tr['haslags']:
        lags = {'list': list, 'array': np.array, 'tuple': tuple}[tr.get('_lagform', 'list')](tr['lags'])
        if len(tr['lags']) == 1 and tr.get('_lagform') == 'tuple':
            lags = tr['lags'][0]
    agg = None
    if tr['aggkind'] == 'int':
        agg = tr['agg']
    elif tr['aggkind'] == 'time':
        agg = tr['_aggstr'] or pd.Timedelta(tick * tr['agg'])
    bins = None
    if tr['bins']:
        bins = sorted(tr['bins']) if tr.get('_binsasc') else list(tr['bins'])
    kw = dict(names=list(tr['names']), functions=funs, agg_freq=agg, lags=lags, relative_lags=tr['rel'], agg_bins=bins)
    return kw


def add(fm, tr, tick, target=False):
    kw = kwargs(tr, tick)
    if target:
        fm.add_target_transform(**kw)
    else:
        if tr['bins'] and not tr['nested']:
            kw['nested'] = False
        fm.add_transform(**kw)


def gen_configs(rng, names, dts, tick, n_tr, n_tgt, **kw):
    """transformers whose generated column names are pairwise distinct"""
    out, seen = ([], []), set()
    for which, k in ((0, n_tr), (1, n_tgt)):
        tries = 0
        while len(out[which]) < k and tries < 50:
            tries += 1
            tr = gen_tr(rng, names, dts, tick, target=bool(which), bins_ok=True, **kw)
            if which == 1:
                tr['nested'] = True
            cols = set().union(*[set(descriptors(tr, d, tick)) for d in dts])
            if cols & seen or cols & set(names):
                continue
            seen |= cols
            out[which].append(tr)
    return out


def gen_frame(rng, n, dt, names, nan=0.0, tz=None, gaps=False):
    cols = {}
    for c in names:
        v = rng.integers(-40, 41, n).astype(float)
        if nan and rng.random() < .5:
            v[rng.random(n) < nan] = np.nan
        cols[str(c)] = [NA if np.isnan(i) else int(i) for i in v]
    f = dict(n=int(n), dt=int(dt), cols=cols)
    if gaps and n > 5:
        # missing rows: fewer than half of the time steps between rows, so that the sampling time is clear
        step = np.ones(n, int)
        where = rng.choice(np.arange(1, n), int(rng.integers(1, max(2, (n - 1) // 2))), replace=False)
        if rng.random() < .4:
            where[0] = 1
        step[where] = rng.integers(2, 5, len(where))
        f['pos'] = [int(v) for v in np.cumsum(step)]
    return f


def to_df(frame, tick, order=None, start='2021-03-01 00:00', tz=None, integer=False):
    names = list(order or frame['cols'])
    idx = pd.date_range(pd.Timestamp(start), periods=frame['n'], freq=pd.Timedelta(tick * frame['dt']), tz=tz)
    if 'pos' in frame:
        idx = pd.date_range(pd.Timestamp(start), periods=frame['pos'][-1], freq=pd.Timedelta(tick * frame['dt']), tz=tz)[[p - 1 for p in frame['pos']]]
    d = {}
    for c in names:
        v = np.array([np.nan if i == NA else float(i) for i in frame['cols'][c]])
        d[c] = v.astype(int) if integer and not np.isnan(v).any() else v
    return pd.DataFrame(d, index=idx, columns=names)


CAL = ['hour', 'dayofweek', 'minuteofday', 'utc_offset', 'holidays']


def err_name(e):
    return '%s: %s' % (type(e).__name__, str(e)[:160].replace('"', "'").replace('\n', ' ').replace('\\', '/'))


def project(df, x_index, trs, dt, tick):
    """descriptors of the generated columns in the order found, with projected values, and the unknown columns"""
    known = {}
    for tr in trs:
        for c, d in descriptors(tr, dt, tick).items():
            known[c] = (tr, d)
    cols, vals, rest = [], [], []
    for i, c in enumerate(df.columns):
        if c in known:
            tr, d = known[c]
            cols.append(d)
            vals.append(scaled(df.iloc[:, i].values, d['fun'], width(tr, dt, d)))
        else:
            rest.append(i)
    pos = pd.Index(x_index).get_indexer(df.index)
    return cols, vals, [int(p) + 1 if p >= 0 else 0 for p in pos], rest


def ev_transform(fm, trs, tgts, frame, tick, ret, parallel=False, order=None, augment=True, start='2021-03-01', tz=None, tf=False, hol=False, entry='transform', integer=False):
    x = to_df(frame, tick, order, start, tz, integer)
    ev = dict(op='transform', frame=frame, dt=frame['dt'], ret=bool(ret), augment=bool(augment), origs=list(x.columns) if augment else [])
    before = x.copy(deep=True)
    try:
        if parallel:
            xt, y = fm._transform(x, time_features=tf, holidays=hol, return_target=ret, parallel=True)
        else:
            xt, y = fm.transform(x, time_features=tf, holidays=hol, return_target=ret)
        xcols, xv, xrows, rest = project(xt, x.index, trs, frame['dt'], tick)
        ycols, yv, yrows, yrest = project(y, x.index, tgts, frame['dt'], tick)
        orig = []
        for c in ev['origs']:
            k = [i for i in rest if xt.columns[i] == c]
            orig.append(scaled(xt.iloc[:, k[0]].values, 'none', 1) if len(k) == 1 else [BAD])
            rest = [i for i in rest if i not in k[:1]]
        extra = [str(xt.columns[i]) for i in rest if not ((tf or hol) and xt.columns[i] in CAL)] + [str(y.columns[i]) for i in yrest]
        mut = not (x.equals(before) and list(x.columns) == list(before.columns) and x.index.equals(before.index))
        ev['obs'] = dict(ok=True, err='', mutated=bool(mut), xcols=xcols, ycols=ycols if ret else [], xrows=xrows, yrows=yrows if ret else [],
                         x=xv, y=yv if ret else [], orig=orig, extra=extra)
    except Exception as e:
        ev['obs'] = dict(ok=False, err=err_name(e))
    return ev


def ev_transformer(t, which, trs, frame, tick, augment):
    x = to_df(frame, tick)
    before = x.copy(deep=True)
    ev = dict(op='transformer', which=which + 1, frame=frame, dt=frame['dt'])
    try:
        r = t.transform(x, augment=augment)
        cols, v, rows, rest = project(r, x.index, [trs[which]], frame['dt'], tick)
        if augment:
            r0 = r.iloc[:, rest]
            if list(r0.columns) != list(before.columns) or not r0.equals(before):
                cols = cols + [dict(name='original columns changed', fun='', lag=0, b0=0, b1=0)]
        elif rest:
            cols = cols + [dict(name='unexpected', fun='', lag=0, b0=0, b1=0)]
        ev['obs'] = dict(ok=True, err='', mutated=not x.equals(before), xcols=cols, xrows=rows, x=v)
    except Exception as e:
        ev['obs'] = dict(ok=False, err=err_name(e))
    return ev


def proj_meta(t, tr, dt, tick):
    known = descriptors(tr, dt, tick)
    rows = []
    step = pd.Timedelta(tick * dt)
    for c, m in t.metadata.iterrows():
        d = known.get(c)
        lag = m['lag']
        try:
            lag = NOLAG if lag is None or (isinstance(lag, float) and np.isnan(lag)) else enc(lag)
        except Exception:
            lag = BAD
        rows.append(dict(name=str(m['name']), fun=str(m['function']), lag=lag, start=enc(pd.Timedelta(m['start_time']) / step),
                         end=enc(pd.Timedelta(m['end_time']) / step), b0=d['b0'] if d else BAD, b1=d['b1'] if d else BAD,
                         cname=d['name'] if d else 'unknown column', cfun=d['fun'] if d else 'unknown', clag=d['lag'] if d else BAD))
    return rows


def ev_meta(fm, trs, tgts, dt, tick):
    ev = dict(op='meta', dt=int(dt))
    try:
        ev['obs'] = dict(ok=True, err='', meta=[proj_meta(t, tr, dt, tick) for t, tr in zip(fm.transformers, trs)],
                         tmeta=[proj_meta(t, tr, dt, tick) for t, tr in zip(fm.target_transformers, tgts)])
    except Exception as e:
        ev['obs'] = dict(ok=False, err=err_name(e))
    return ev


def ev_lims(fm, dt, tick, target, extremes):
    ev = dict(op='lims', dt=int(dt), target=bool(target), extremes=bool(extremes))
    step = pd.Timedelta(tick * dt)
    try:
        r = fm.get_time_lims(include_target=target, extremes=extremes)
        lims = {}
        for i, (nm, row) in enumerate(r.iterrows()):
            lims['all' if extremes else str(nm)] = [enc(pd.Timedelta(row['start_time']) / step), enc(pd.Timedelta(row['end_time']) / step)]
        ev['obs'] = dict(ok=True, err='', lims=lims)
    except Exception as e:
        ev['obs'] = dict(ok=False, err=err_name(e))
    return ev


def ev_simulate(fm, frame, tick, withx):
    ev = dict(op='simulate', dt=frame['dt'])
    try:
        fm._simulate_transform(to_df(frame, tick) if withx else None)
        ev['obs'] = dict(ok=True, err='')
    except Exception as e:
        ev['obs'] = dict(ok=False, err=err_name(e))
    return ev


def ev_folds(fm, n, dt, nk, mult, tick, x=None, start='2021-03-01', tz=None):
    idx = pd.date_range(start, periods=n, freq=pd.Timedelta(tick * dt), tz=tz)
    m = nk * mult
    step = pd.Timedelta(tick * dt).value
    T = (n - 1) * step
    exact = []
    for f in range(m):
        ok = T % (nk - 1) == 0 and (m == 1 or (f * (T - T // (nk - 1))) % (m - 1) == 0)
        exact.append(bool(ok))
    ev = dict(op='folds', n=int(n), nk=int(nk), mult=int(mult), dt=int(dt), exact=exact)
    try:
        folds = []
        for tr, te in fm.time_kfcv(idx, nk, mult, x=x):
            folds.append(dict(tr=[int(i) + 1 for i in np.where(np.asarray(tr))[0]], te=[int(i) + 1 for i in np.where(np.asarray(te))[0]]))
        ev['obs'] = dict(ok=True, err='', folds=folds)
    except Exception as e:
        ev['obs'] = dict(ok=False, err=err_name(e), folds=[])
    return ev


def ev_prune(fm, trs, xt, dt, tick, rule, metafeats):
    ev = dict(op='prune', dt=int(dt), rule=rule, metafeats=list(metafeats))
    try:
        before = xt.copy(deep=True)
        r = fm.prune_dataset_at_stepahead(xt, rule['target'] - 1, list(metafeats), method=rule['method'],
                                          period=str(pd.Timedelta(tick * rule['period'])), tol_period=str(pd.Timedelta(tick * rule['tol'])),
                                          keep_last_n_lags=rule['lastlags'], keep_last_seconds=int((tick * rule['lastmin']).total_seconds()))
        known = {}
        for tr in trs:
            known.update(descriptors(tr, dt, tick))
        cols = [known[c] for c in r.columns if c in known]
        same = xt.equals(before) and r.index.equals(xt.index) and all(np.array_equal(r[c].values, before[c].values, equal_nan=True) for c in r.columns)
        ev['obs'] = dict(ok=True, err='', cols=cols, metafeats=[str(c) for c in r.columns if c not in known], same=bool(same))
    except Exception as e:
        ev['obs'] = dict(ok=False, err=err_name(e))
    return ev


def pick_tick(rng):
    u, k = TICKS[rng.integers(len(TICKS))]
    return pd.Timedelta(k, unit=u)


NAMES = ['a', 'b', 'c']


def build(rng, trs, tgts, tick, augment=True, dt=None, early=None):
    """the formatter of a configuration. early: a frame which is transformed while the last transform is still missing"""
    fm = Formatter(augment=augment, dt=dt)
    if early is not None:
        early = to_df(early, tick)
    for k, tr in enumerate(trs):
        if early is not None and k and k == len(trs) - 1:
            fm.transform(early.copy(), time_features=False, return_target=False)
        add(fm, tr, tick)
    for k, tr in enumerate(tgts):
        if early is not None and k == len(tgts) - 1:
            fm.transform(early.copy(), time_features=False)
        add(fm, tr, tick, target=True)
    return fm


def early(rng, dt, names, p=.25):
    return gen_frame(rng, 20, dt, names) if rng.random() < p else None


def pub(tr):
    return {k: v for k, v in tr.items() if not k.startswith('_')}


def trace(i, trs, tgts, ev, **kw):
    return dict(id=i, trs=[pub(t) for t in trs], tgts=[pub(t) for t in tgts], ev=ev, **kw)


# ------------------------------------------------------------------ C01
def c01(c):
    c.design('FormatterMC.tla', 'WindowsMC_deep.cfg' if c.thorough else 'WindowsMC.cfg', workers=6)
    n = c.n(420, 4000)

    def one(i):
        rng = c.rng(i)
        tick = pick_tick(rng)
        dt = int(rng.choice([1, 2, 3]))
        trs, _ = gen_configs(rng, NAMES, [dt], tick, int(rng.integers(1, 4)), 0)
        ev = []
        fixdt = pd.Timedelta(tick * dt) if rng.random() < .3 else None
        fm = build(rng, trs, [], tick, dt=fixdt, early=early(rng, dt, NAMES))
        nn = int(rng.integers(4, 34))
        which = int(rng.integers(len(trs)))
        gaps = bool(rng.random() < .3)
        ev.append(ev_transformer(copy.deepcopy(fm.transformers[which]), which, trs, gen_frame(rng, nn, dt, NAMES, gaps=gaps), tick, bool(rng.random() < .5)))
        fr = gen_frame(rng, nn, dt, NAMES, nan=.08 * (rng.random() < .5), gaps=gaps)
        ev.append(ev_transform(fm, trs, [], fr, tick, False, tz='Europe/Zurich' if rng.random() < .2 else None, integer=bool(rng.random() < .3)))
        return trace(i, trs, [], ev)
    c.validate('FormatterTrace.tla', pmap(one, range(n)), shards=8)
    c.assumptions = ['frames on a time grid, rows may be missing', 'feature transforms have functions or lags', 'standard deviation is the sample one (nested bins and plain windows)']


# ------------------------------------------------------------------ C02
def c02(c):
    c.design('FormatterMC.tla', 'WindowsMC_deep.cfg' if c.thorough else 'WindowsMC.cfg', workers=6)
    n = c.n(500, 5000)

    def one(i):
        rng = c.rng(i)
        tick = pick_tick(rng)
        dt = int(rng.choice([1, 2, 3]))
        trs, tgts = gen_configs(rng, NAMES, [dt], tick, int(rng.integers(1, 4)), int(rng.integers(1, 3)))
        fr = gen_frame(rng, int(rng.integers(16, 30)), dt, NAMES)
        fixdt = pd.Timedelta(tick * dt) if rng.random() < .4 else None
        fm = build(rng, trs, tgts, tick, dt=fixdt, early=early(rng, dt, NAMES, .35))
        ev = []
        first = rng.choice(['simulate', 'simulate_nox', 'transform', 'lims'])
        if fixdt is None and first in ('simulate_nox', 'lims'):
            first = 'simulate'
        if first.startswith('simulate'):
            ev.append(ev_simulate(fm, fr, tick, first == 'simulate'))
        elif first == 'transform':
            ev.append(ev_transform(fm, trs, tgts, fr, tick, True, tf=bool(rng.random() < .5)))
        if first == 'lims':
            ev.append(ev_lims(fm, dt, tick, bool(rng.random() < .5), bool(rng.random() < .5)))
            ev.append(ev_simulate(fm, fr, tick, False))
        ev.append(ev_meta(fm, trs, tgts, dt, tick))
        for a, b in ((True, True), (False, True), (True, False), (False, False)):
            ev.append(ev_lims(fm, dt, tick, a, b))
        if first != 'transform':
            ev.append(ev_transform(fm, trs, tgts, fr, tick, True))
            ev.append(ev_meta(fm, trs, tgts, dt, tick))
        return trace(i, trs, tgts, ev)
    c.validate('FormatterTrace.tla', pmap(one, range(n)), shards=8)


# ------------------------------------------------------------------ C03
def c03(c):
    n = c.n(420, 4000)

    def one(i):
        rng = c.rng(i)
        tick = pick_tick(rng)
        dt = int(rng.choice([1, 2, 3]))
        trs, tgts = gen_configs(rng, NAMES, [dt], tick, int(rng.integers(0, 4)), int(rng.integers(0, 3)), lagmax=4)
        names = NAMES + ['d']
        augment = bool(rng.random() < .6)
        fm = build(rng, trs, tgts, tick, augment=augment)
        ev = []
        fr = gen_frame(rng, int(rng.integers(6, 30)), dt, names, nan=float(rng.choice([0, .04, .15])), gaps=bool(rng.random() < .2))
        order = [str(k) for k in rng.permutation(names)]
        tz = 'Europe/Zurich' if rng.random() < .3 else None
        tf, hol = bool(rng.random() < .3), bool(rng.random() < .15)
        par = bool(rng.random() < .3) and len(trs) > 0
        if not trs and not augment:
            augment = fm.augment = True
        for ret in ((True, False) if rng.random() < .7 else (False, True)):
            ev.append(ev_transform(fm, trs, tgts, fr, tick, ret, order=order, augment=augment, tz=tz, tf=tf, hol=hol, parallel=par))
        return trace(i, trs, tgts, ev)
    c.validate('FormatterTrace.tla', pmap(one, range(n)), shards=8)


# ------------------------------------------------------------------ C04
def replay_history(c, i, h, fixdt):
    rng = c.rng(i, 'hist')
    tick = pick_tick(rng)
    dts = [1] if fixdt else [1, 2]
    trs, tgts = gen_configs(rng, NAMES, dts, tick, int(rng.integers(1, 4)), int(rng.integers(1, 3)), lagmax=3)
    for t in trs + tgts:            # integer and default windows are the configurations most exposed to state
        if not t['bins'] and t['funs'] and rng.random() < .3:
            t['aggkind'], t['agg'] = ('int', int(rng.integers(1, 4))) if rng.random() < .5 else ('none', 0)
    allc = [set(descriptors(t, d, tick)) for t in trs + tgts for d in dts]
    if len(set().union(*allc)) != sum(len(set().union(*[set(descriptors(t, d, tick)) for d in dts])) for t in trs + tgts):
        trs, tgts = gen_configs(rng, NAMES, dts, tick, 1, 1, lagmax=3)
    fm = build(rng, trs, tgts, tick, dt=tick if fixdt else None)
    ev = []
    n = int(rng.integers(18, 26))
    frame = lambda dt=1, nn=None: gen_frame(rng, nn or n, dt, NAMES, nan=.03)
    cur = tcur = None
    base = frame()
    for op in h + ['transform', 'meta']:
        if op == 'transform':
            ev.append(ev_transform(fm, trs, tgts, base, tick, True))
            cur = 1
        elif op == 'transform_dt2':
            ev.append(ev_transform(fm, trs, tgts, frame(2), tick, True))
            cur = 2
        elif op == 'infer':
            ev.append(ev_transform(fm, trs, tgts, base, tick, False))
            cur = 1
        elif op == 'short':
            ev.append(ev_transform(fm, trs, tgts, frame(1, 3), tick, True))
            cur = 1
        elif op == 'permuted':
            ev.append(ev_transform(fm, trs, tgts, base, tick, True, order=NAMES[::-1]))
            cur = 1
        elif op == 'parallel':
            ev.append(ev_transform(fm, trs, tgts, base, tick, True, parallel=True))
            cur = 1
        elif op == 'simulate_dt2':
            ev.append(ev_simulate(fm, gen_frame(rng, 9, 2, NAMES), tick, True))
            cur = 2
        elif op == 'folds':
            ev.append(ev_folds(fm, 40, cur, int(rng.integers(2, 4)), int(rng.integers(1, 3)), tick))
        elif op == 'lims':
            ev.append(ev_lims(fm, cur, tick, cur == tcur and bool(rng.random() < .5), bool(rng.random() < .5)))
        elif op == 'prune':
            x = pd.DataFrame({k: [0.] for t in trs for k in descriptors(t, cur, tick)})
            ev.append(ev_prune(fm, trs, x, cur, tick, dict(method='up_to', period=24, tol=1, lastlags=1, lastmin=0, target=1), []))
        elif op == 'deepcopy':
            fm = copy.deepcopy(fm)
        elif op == 'pickle':
            fm = pickle.loads(pickle.dumps(fm))
        elif op == 'meta':
            ev.append(ev_meta(fm, trs, tgts, cur, tick))
        if op in ('transform', 'transform_dt2', 'short', 'permuted', 'parallel', 'simulate_dt2'):
            tcur = cur
    return trace(i, trs, tgts, ev, hist=h)


def c04(c):
    beh = c.behaviours('FormatterHist.tla', 'FormatterHist3.cfg' if not c.thorough else 'FormatterHist4.cfg')
    short = [b for b in beh if len(b['h']) <= 2]
    rest = [b for b in beh if len(b['h']) > 2]
    k = c.n(420, 6000)
    idx = c.rng('pick').permutation(len(rest))[:k]
    items = [b['h'] for b in short] + [rest[i]['h'] for i in idx]
    traces = pmap(lambda a: replay_history(c, a[0], a[1], False), list(enumerate(items)))
    c.validate('FormatterTrace.tla', traces, shards=8)
    c.notes['histories_replayed'] = len(items)


# ------------------------------------------------------------------ C05
def c05(c):
    c.design('FormatterMC.tla', 'FoldsMC_deep.cfg' if c.thorough else 'FoldsMC.cfg', workers=6)
    n = c.n(700, 8000)

    def one(i):
        rng = c.rng(i)
        tick = pick_tick(rng)
        dt = int(rng.choice([1, 2, 3]))
        trs, tgts = gen_configs(rng, NAMES, [dt], tick, int(rng.integers(1, 4)), int(rng.integers(0, 2)), lagmax=int(rng.choice([2, 5, 8])))
        fm = build(rng, trs, tgts, tick, early=early(rng, dt, NAMES))
        ev = []
        first = rng.choice(['none', 'transform', 'simulate'])
        fr = gen_frame(rng, 20, dt, NAMES)
        if first == 'transform':
            ev.append(ev_transform(fm, trs, tgts, fr, tick, True))
        elif first == 'simulate':
            ev.append(ev_simulate(fm, fr, tick, True))
        for k in range(3):
            nn = int(rng.integers(4, 60))
            nk = int(rng.integers(2, 6))
            mult = int(rng.integers(1, 4))
            if rng.random() < .5:     # sizes whose windows fall on samples
                b = int(np.lcm(nk - 1, nk * mult - 1))
                nn = max(4, min(90, b * (nk - 1) * int(rng.integers(1, 3)) + 1))
            ev.append(ev_folds(fm, nn, dt, nk, mult, tick, x=to_df(fr, tick), tz='Europe/Zurich' if rng.random() < .2 else None,
                               start=str(rng.choice(['2021-03-01', '2021-06-26 05:00', '2019-12-31 23:00']))))
        return trace(i, trs, tgts, ev)
    c.validate('FormatterTrace.tla', pmap(one, range(n)), shards=8)


# ------------------------------------------------------------------ C08
def c08(c):
    n = c.n(420, 4000)

    def one(i):
        rng = c.rng(i)
        tick = pick_tick(rng)
        dt = int(rng.choice([1, 2]))
        trs, tgts = gen_configs(rng, NAMES, [dt], tick, int(rng.integers(1, 4)), int(rng.integers(1, 3)), lagmax=int(rng.choice([3, 8])))
        fm = build(rng, trs, tgts, tick)
        fr = gen_frame(rng, 40, dt, NAMES)
        ev = [ev_transform(fm, trs, tgts, fr, tick, True)]
        xt, y = fm.transform(to_df(fr, tick), time_features=True, return_target=True)
        nt = sum(len(descriptors(t, dt, tick)) for t in tgts)
        for k in range(4):
            rule = dict(method=str(rng.choice(['periodic', 'periodic', 'up_to', 'all'])), period=int(rng.integers(1, 9)) * int(rng.choice([1, dt])),
                        tol=int(rng.choice([0, 0, 1, 2])), lastlags=int(rng.choice([0, 0, 1, 3])), lastmin=0, target=int(rng.integers(1, nt + 1)))
            if rng.random() < .35:
                rule['lastmin'] = int(rng.integers(1, 5)) * dt
            mf = [str(m) for m in rng.permutation(['hour', 'dayofweek', 'minuteofday'])[:rng.integers(0, 3)]]
            ev.append(ev_prune(fm, trs, xt, dt, tick, rule, mf))
            if rng.random() < .5:       # the same step again, on the rows of prediction time
                xi, _ = fm.transform(to_df(gen_frame(rng, 30, dt, NAMES), tick), time_features=True, return_target=False)
                ev.append(ev_prune(fm, trs, xi, dt, tick, rule, mf))
        return trace(i, trs, tgts, ev)
    c.validate('FormatterTrace.tla', pmap(one, range(n)), shards=8)


# ------------------------------------------------------------------ C06
LN = 120
EXPR = {'sub': ("df[t] - df['m']", "df[t] + df['m']"), 'half': ("(df[t] - df['m']) / 2", "df[t] * 2 + df['m']"),
        'ratio': ("(df[t] - df['m']) / df['s']", "df[t] * df['s'] + df['m']")}


def encl(vals):
    return [enc(v, LN) for v in np.asarray(vals, dtype=float)]


def projl(df, x_index, trs, dt, tick):
    cols, vals, rows, rest = project(df, x_index, trs, dt, tick)
    known = set().union(*[set(descriptors(t, dt, tick)) for t in trs]) if trs else set()
    vals = [encl(df.iloc[:, i].values) for i, c in enumerate(df.columns) if c in known]
    return cols, vals, rows, rest


def c06(c):
    n = c.n(420, 4000)

    def one(i):
        rng = c.rng(i)
        tick = pick_tick(rng)
        dt = int(rng.choice([1, 2]))
        names = ['a', 'b', 'c', 'd'] if rng.random() < .5 else [str(v) for v in rng.permutation(['load', 'load_2', 'load_', 'a_load'])]     # names which begin or end one another
        pool = ['sum', 'max', 'min', 'poly']
        trs, tgts = gen_configs(rng, names, [dt], tick, int(rng.integers(0, 3)), int(rng.integers(1, 3)), lagmax=3, funs_pool=pool)
        tnames = sorted(set(nm for t in tgts for nm in t['names']))
        kind = str(rng.choice(['sub', 'half', 'ratio', 'ratio', 'none']))
        tgt = str(rng.choice(tnames))
        ntgt = tgt if rng.random() < .7 or len(tnames) == 1 else str(rng.choice([t for t in tnames if t != tgt]))
        augment = bool(rng.random() < .7)
        fm = build(rng, trs, tgts, tick, augment=augment)
        nrms = []
        for tag, fun, who in (('m', str(rng.choice(['mean', 'max', 'min', 'sum', 'lag'])), tgt), ('s', str(rng.choice(['max', 'min', 'lag'])), ntgt)):
            if tag == 's' and kind != 'ratio' and rng.random() < .6:
                continue
            tr = dict(names=[who], funs=[] if fun == 'lag' else [fun], aggkind='none', agg=0, haslags=False, lags=[], rel=False, bins=[], nested=True, _aggstr='')
            if fun != 'lag':
                tr['aggkind'], tr['agg'] = ('time', dt * int(rng.integers(1, 3))) if rng.random() < .6 else ('int', int(rng.integers(1, 3)))
            if rng.random() < .5 or fun == 'lag':
                tr['haslags'], tr['lags'] = True, [int(rng.integers(1, 4))]
            kw = kwargs(tr, tick)
            fm.add_target_normalizer(who, function=kw['functions'], agg_freq=kw['agg_freq'],
                                     lags=None if not tr['haslags'] else (tr['lags'][0] if rng.random() < .5 else np.array(tr['lags'])), name=tag)
            nrms.append(dict(tag=tag, tr=pub(tr)))
        if kind != 'none':
            fm.add_normalizing_fun(*EXPR[kind])
        nn = int(rng.integers(10, 26))
        frame = dict(n=nn, dt=dt, cols={k: [int(v) for v in rng.integers(1, 7, nn)] for k in names})
        ev, yt = [], None
        x = to_df(frame, tick)
        for ret in ((True,) if rng.random() < .5 else (False, True)):
            e = dict(op='transform', frame=frame, ret=ret, augment=augment, origs=names if augment else [])
            before = x.copy(deep=True)
            try:
                xt, y = fm.transform(x, time_features=bool(rng.random() < .3), return_target=ret)
                xc, xv, xr, rest = projl(xt, x.index, trs, dt, tick)
                yc, yv, yr, _ = projl(y, x.index, tgts, dt, tick)
                e['obs'] = dict(ok=True, err='', mutated=not x.equals(before), xcols=xc, x=xv, xrows=xr, ycols=yc, y=yv, yrows=yr,
                                norms=[encl(xt[nr['tag']].values) for nr in nrms], orig=[encl(xt[k].values) for k in e['origs']])
                if ret:
                    yt = (xt, y, xr)
            except Exception as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
            ev.append(e)
        if yt is not None and len(yt[1]) > 0:
            xt, y, rows = yt
            for form in ('point', 'quantile'):
                shifts = [0] if form == 'point' else [0, 1, -2]
                if form == 'point':
                    arg = y.copy()
                else:
                    qs = [.5, .9, .1]
                    arg = pd.concat({q: y + k for q, k in zip(qs, shifts)}, axis=1).swaplevel(axis=1)
                    if rng.random() < .5:
                        arg = arg[[(t, q) for t in y.columns for q in qs]]
                e = dict(op='denorm', frame=frame, rows=rows, shifts=shifts)
                b1, b2 = arg.copy(deep=True), xt.copy(deep=True)
                try:
                    r = fm.denormalize(xt, arg)
                    per = [r] if form == 'point' else [r.xs(q, axis=1, level=1)[list(y.columns)] for q in qs]
                    pr = [projl(p, x.index, tgts, dt, tick) for p in per]
                    e['obs'] = dict(ok=True, err='', mutated=not (arg.equals(b1) and xt.equals(b2)), ycols=pr[0][0], y=[p[1] for p in pr], yrows=pr[0][2])
                except Exception as ex:
                    e['obs'] = dict(ok=False, err=err_name(ex))
                if kind == 'none':
                    continue
                ev.append(e)
        return trace(i, trs, tgts, ev, nrms=nrms, kind=kind)
    c.validate('NormTrace.tla', pmap(one, range(n)), shards=8)
    c.assumptions = ['integer signals; three expression families', 'expressions given for both directions are inverse of each other']


# ------------------------------------------------------------------ C07
def c07(c):
    n = c.n(300, 3000)

    def one(i):
        rng = c.rng(i)
        tick = pick_tick(rng)
        dt = 1
        corr = bool(rng.random() < .35)
        multi = bool(rng.random() < .5)
        shared = ['s1', 's2'][:int(rng.integers(1, 3))]
        private = ['p1'] if multi and rng.random() < .7 else []
        series = [str(s) for s in rng.permutation(['north', 'south', 'east', 'west'])[:int(rng.integers(1, 4))]]
        pool = ['target'] + shared + private
        while True:
            trs, _ = gen_configs(rng, pool, [dt], tick, int(rng.integers(1, 3)), 0, lagmax=3)
            _, tgts = gen_configs(rng, ['target'], [dt], tick, 0, 1, lagmax=3)
            if corr:
                for t in trs + tgts:
                    t.update(funs=[], aggkind='none', agg=0, bins=[], nested=True, rel=False, haslags=True)
                    t['lags'] = t['lags'] or [1]
                    t['lags'] = sorted(set(abs(int(v)) for v in t['lags']))
                for t in tgts:
                    t['lags'] = [-1, -2][:len(t['lags'])]
            # every shared and private signal must be transformed; separate transformers for those left out
            done = set(nm for t in trs for nm in t['names'])
            for nm in shared + private:
                if nm not in done:
                    trs.append(dict(names=[nm], funs=[], aggkind='none', agg=0, haslags=True, lags=[int(v) for v in rng.permutation(4)[:2]], rel=False, bins=[], nested=True, _aggstr='', _lagform='list'))
            cols = [k for t in trs + tgts for k in descriptors(t, dt, tick)]
            if len(cols) == len(set(cols)):
                break
        augment = bool(rng.random() < .8)
        # shared signals may have names which are no strings
        odd = {} if multi or rng.random() < .7 else {'s1': 7, 's2': 12}
        fm = build(rng, [dict(t, names=[odd.get(v, v) for v in t['names']]) for t in trs], tgts, tick, augment=augment)

        def plain(df):
            back = {str(v): k for k, v in odd.items()}
            return df.rename(columns=lambda c: back.get(str(c).split('_')[0], str(c).split('_')[0]) + str(c)[len(str(c).split('_')[0]):]) if odd else df
        ev = []
        rets = [True] if not corr and rng.random() < .5 else [True, False]
        for ret in rets:
            nn = int(rng.integers(8, 11)) + 2 if corr else int(rng.integers(8, 20))
            lo, hi = (-2, 3) if corr else (-20, 21)
            data = {}
            nan = 0.05 if not corr and rng.random() < .5 else 0
            col = lambda: [NA if rng.random() < nan else int(v) for v in rng.integers(lo, hi, nn)]
            sh = {k: col() for k in shared}
            per = {s: {'target': col(), **{k: col() for k in private}} for s in series}
            if corr and ret:          # avoid ties of the correlation: redraw until all are clearly different
                ok = False
                for _ in range(60):
                    ok = corr_ok(trs, tgts, [dict(n=nn, dt=dt, cols={**per[s], **sh}) for s in series], tick)
                    if ok:
                        break
                    sh = {k: col() for k in shared}
                    per = {s: {'target': col(), **{k: col() for k in private}} for s in series}
                if not ok:
                    break
            frames = [dict(n=nn, dt=dt, cols={**per[s], **sh}) for s in series]
            idx = pd.date_range('2022-01-01', periods=nn, freq=pd.Timedelta(tick * dt))
            arr = lambda v: [np.nan if q == NA else float(q) for q in v]
            if multi:
                d = {}
                for s in series:
                    for k in per[s]:
                        d[(s, ('load_' + s) if k == 'target' else k)] = arr(per[s][k])
                for k in shared:
                    d[('meteo', k)] = arr(sh[k])
                x = pd.DataFrame(d, index=idx)
            else:
                x = pd.DataFrame({**{s: arr(per[s]['target']) for s in series}, **{odd.get(k, k): arr(sh[k]) for k in shared}}, index=idx)
            before = x.copy(deep=True)
            reduce_ = bool(rng.random() < .5)
            origs = (['target'] + private + shared) if augment else []
            e = dict(op='gtransform', frames=frames, series=series, ret=ret, corr=corr, augment=augment, origs=origs)
            try:
                kw = dict(time_features=bool(rng.random() < .3), return_target=ret, global_form=True, reduce_memory=reduce_, corr_reorder=corr)
                if not corr and rng.random() < .4:
                    # the series shared among so many processors
                    with mock.patch('os.cpu_count', return_value=int(rng.integers(1, 4))):
                        xt, y = fm.transform(x, parallel=True, **kw)
                else:
                    xt, y = fm.transform(x, **kw)
                xt = plain(xt)
                xc, xv, xr, rest = project(xt, x.index, trs, dt, tick)
                yc, yv, yr, _ = project(y, x.index, tgts, dt, tick)
                e['obs'] = dict(ok=True, err='', mutated=not x.equals(before), xcols=xc, x=xv, xrows=xr, ycols=yc, y=yv, yrows=yr,
                                names=[str(v) for v in xt['name']] if augment else [], orig=[scaled(xt[k].values, 'none', 1) for k in origs])
            except Exception as ex:
                e['obs'] = dict(ok=False, err=err_name(ex))
            ev.append(e)
        return trace(i, trs, tgts, ev)
    traces = [t for t in pmap(one, range(n)) if t['ev']]
    c.validate('GlobalTrace.tla', traces, shards=8)
    c.assumptions = ['labels are carried when augment is on', 'correlations of one signal are pairwise different when reordering']


def corr_ok(trs, tgts, frames, tick):
    for fr in frames:
        x = to_df(fr, tick)
        n = fr['n']
        lag = lambda nm, l: np.array([x[nm].iloc[t - l] if 0 <= t - l < n else np.nan for t in range(n)])
        cols = {(i, nm): [lag(nm, l) for l in t['lags']] for i, t in enumerate(trs) for nm in t['names']}
        ys = [lag('target', l) for t in tgts for l in t['lags']]
        allc = np.array([v for g in cols.values() for v in g] + ys)
        keep = ~np.isnan(allc).any(axis=0)
        if keep.sum() < 4 or keep.sum() > 10:
            return False
        y = ys[0][keep]
        for g in cols.values():
            r = []
            for v in g:
                if np.std(v[keep]) == 0 or np.std(y) == 0:
                    return False
                r.append(np.corrcoef(v[keep], y)[0, 1])
            if len(r) > 1 and np.min(np.diff(np.sort(r))) < 1e-6:
                return False
    return True


# ------------------------------------------------------------------ C23
ZONES = ['Europe/Zurich', 'America/New_York', 'Asia/Kolkata', 'UTC']
STARTS = ['2021-03-27 20:00', '2021-10-30 22:00', '2020-12-30 06:00', '2021-12-23 00:00', '2022-05-24 00:00', '2020-02-28 12:00', '2023-03-11 22:00', '2023-11-04 22:00',
          '2022-12-31 18:00', '2021-04-01 00:00', '2023-07-30 03:00', '2024-12-29 21:00']


def holiday_sets(days, country):
    """day numbers of the public holidays around the days"""
    import holidays as hl
    h = hl.country_holidays(country=country, years=range(days[0].year - 1, days[-1].year + 2))
    epoch = pd.Timestamp('1970-01-01').date()
    lo, hi = (days[0] - epoch).days - 5, (days[-1] - epoch).days + 5
    return [v for v in sorted((d - epoch).days for d in h.keys()) if lo <= v <= hi]


def ev_calendar(fm, rng, zoned, time=True, hol=True, ops_rng=None):
    zone = str(rng.choice(ZONES)) if zoned else 'naive'
    step = int(rng.choice([15, 60, 60, 180, 360, 1440]))
    n = int(rng.integers(6, 40)) if rng.random() < .75 else int(rng.integers(1 if fm.augment else 2, 6))
    start = pd.Timestamp(str(rng.choice(STARTS))) + pd.Timedelta(minutes=int(rng.integers(0, 4)) * 60) if rng.random() < .8 else \
        pd.Timestamp('2019-01-01') + pd.Timedelta(hours=int(rng.integers(0, 24 * 365 * 5)))
    idx = pd.date_range(start.tz_localize('UTC') if zoned else start, periods=n, freq='%dmin' % step)
    if zoned:
        idx = idx.tz_convert(zone)
    e_min = [int(v) for v in (idx.tz_convert('UTC').tz_localize(None) if zoned else idx).values.astype('datetime64[m]').astype(int)]
    country = str(rng.choice(['CH', 'CH', 'IT', 'US', 'DE', 'FR']))
    x = pd.DataFrame({'a': np.arange(n) * 1.0}, index=idx)
    before = x.copy(deep=True)
    hs = holiday_sets(idx.date, country) if hol else []
    e = dict(op='calendar', zoned=bool(zoned), zone=zone, rows=e_min, time=bool(time), holidays=bool(hol), hols=hs, country=country)
    try:
        kw = {} if (country == 'CH') else dict(state_code=country)
        xt, _ = fm.transform(x, time_features=time, holidays=hol, return_target=False, **(kw if hol else {}))
        ri = xt.index
        rows = [int(v) for v in (ri.tz_convert('UTC').tz_localize(None) if ri.tz is not None else ri).values.astype('datetime64[m]').astype(int)]
        g = lambda col, k=1: [enc(v, k) for v in xt[col].values] if col in xt.columns else []
        e['obs'] = dict(ok=True, err='', mutated=not x.equals(before), rows=rows, hour=g('hour'), dow=g('dayofweek'), mod=g('minuteofday'),
                        hasutc='utc_offset' in xt.columns, utc=g('utc_offset', 60), hol=g('holidays'))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return e


def c23(c):
    beh = c.behaviours('FormatterHist.tla', 'CalendarHist.cfg')
    hists = [b['h'] for b in beh if any(o in ('zoned', 'naive') for o in b['h'])]
    idx = c.rng('pick').permutation(len(hists))[:c.n(430, len(hists))]
    hists = [hists[i] for i in sorted(idx)]

    def one(a):
        i, h = a
        rng = c.rng(i)
        fm = Formatter(augment=True)
        aug = rng.random() < .5
        if not aug:
            fm.add_transform(['a'], lags=[0])
            fm.augment = False
        ev = []
        for op in h:
            if op in ('zoned', 'naive'):
                ev.append(ev_calendar(fm, rng, op == 'zoned', time=True, hol=bool(rng.random() < .5)))
            elif op == 'infer':      # no time features: takes no decision
                ev.append(ev_calendar(fm, rng, bool(rng.random() < .5), time=False, hol=bool(rng.random() < .5)))
            else:
                fm = copy.deepcopy(fm) if op == 'deepcopy' else pickle.loads(pickle.dumps(fm))
        return dict(id=i, ev=ev, hist=h)
    traces = [t for t in pmap(one, list(enumerate(hists))) if t['ev']]
    c.validate('CalendarTrace.tla', traces, shards=8)
    c.assumptions = ['the list of public holidays is that of the holidays library']
