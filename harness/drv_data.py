"""Conformance driver of data splitting and compaction: C20."""
import fake_ray
fake_ray.install()
import math
import numpy as np, pandas as pd
from core import NA, BAD, pmap
from fcst import *
import pyforecaster.big_data_utils as bd


def twice(x):
    return x * 2


def thrice_frame(x):
    if not isinstance(x, pd.DataFrame):
        raise TypeError('frames only')
    return x * 3


def pair(x):
    return x[list(x.columns)] * 1, x[list(x.columns)] * 2


def table(rng, R, C, types=False):
    idx = index(rng, R, tz=None if rng.random() < .7 else 'Europe/Zurich') if rng.random() < .6 else pd.Index(rng.permutation(R + 3)[:R], name='id' if rng.random() < .5 else None)
    s = rng.random()
    cols = pd.Index(['c%d' % i for i in rng.permutation(C)]) if s < .4 else pd.Index(rng.permutation(C + 2)[:C]) if s < .7 else pd.MultiIndex.from_tuples([('u%d' % (i % 2), i) for i in rng.permutation(C)])
    df = pd.DataFrame(100 * np.arange(1, R + 1)[:, None] + np.arange(1, C + 1)[None, :], index=idx, columns=cols)
    if types:
        for c in range(C):
            df = df.astype({df.columns[c]: str(rng.choice(['int16', 'float32', 'int64', 'float64']))})
    return df


def pieces(df, ps):
    out = []
    for p in ps:
        a = p.values if isinstance(p, pd.DataFrame) else p
        if isinstance(p, pd.DataFrame):
            rows = [df.index.get_loc(i) + 1 for i in p.index]
            cols = [df.columns.get_loc(i) + 1 for i in p.columns]
            types = [str(t) for t in p.dtypes]
            if type(p.index) is not type(df.index) or p.index.dtype != df.index.dtype or list(p.index.names) != list(df.index.names) or p.columns.nlevels != df.columns.nlevels:
                raise AssertionError('kind of labels changed')
        else:                 # arrays carry no labels: read them off the first row and column
            rows = [int(v) // 100 for v in (a[:, 0] if a.shape[1] else range(0))]
            cols = [int(v) % 100 for v in (a[0] if a.shape[0] else range(0))]
            types = [str(a.dtype)] * a.shape[1]
        out.append(dict(rows=[int(r) for r in rows], cols=[int(c) for c in cols], types=types, cells=[[int(v) for v in r] for r in np.asarray(a, dtype=float)]))
    return out


def c20_split(seed):
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(3):
        R, C = int(rng.integers(1, 14)), int(rng.integers(1, 9))
        axis = int(rng.integers(2))
        frame = rng.random() < .6
        df = table(rng, R, C, frame)
        if not frame:
            n = (R, C)[axis]
            k = int(rng.integers(1, n + 1))
            a = df.values.astype(str(rng.choice(['int16', 'float32', 'int64', 'float64'])))
            x, types = a, [str(a.dtype)] * C
        else:
            k = int(rng.integers(1, 18))
            x, types = df, [str(t) for t in df.dtypes]
        e = dict(op='split', R=R, C=C, axis=axis, k=k, types=types, factor=1)
        x0 = x.copy()
        try:
            ps = bd.array_split(x, k, axis=axis) if rng.random() < .8 or axis else bd.array_split(x, k)
            e['obs'] = dict(ok=True, err='', mutated=not (same_frame(x, x0) if frame else np.array_equal(x, x0)), pieces=pieces(df, ps))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    return dict(ev=ev, id='split/%d' % (seed % 10000))


def c20_apply(item):
    seed, ray = item
    rng = np.random.default_rng(seed)
    R, C = int(rng.integers(2, 12)), int(rng.integers(1, 12))
    axis = int(rng.integers(2))
    df = table(rng, R, C)
    parts = bool(ray and rng.random() < .25)
    kind = ['twice', 'frame', 'pair'][int(rng.integers(3 if ray and not parts else 2))] if ray else 'twice'
    f = dict(twice=twice, frame=thrice_frame, pair=pair)[kind]
    ns = int(rng.integers(1, 7)) if rng.random() < .8 else None
    given = df
    if rng.random() < .3:            # already split, unevenly
        cuts = sorted(set(int(v) for v in rng.integers(1, max(2, (R, C)[axis]), 2)) & set(range(1, (R, C)[axis])))
        cuts = [0] + cuts + [(R, C)[axis]]
        given = [df.iloc[a:b] if axis == 0 else df.iloc[:, a:b] for a, b in zip(cuts, cuts[1:])]
    e = dict(op='apply', R=R, C=C, axis=axis, k=0, types=[str(t) for t in df.dtypes], factor=dict(twice=2, frame=3, pair=1)[kind])
    d0 = df.copy()
    try:
        r = bd.fdf_parallel(f, given, ns, axis=axis, use_ray=ray, recast=not parts)
        r = list(r) if isinstance(r, (list, tuple)) else [r]
        r = [pd.DataFrame(a, index=df.index, columns=df.columns) if isinstance(a, np.ndarray) and not parts else a for a in r]
        p = pieces(df, r)
        if kind == 'pair' and len(p) != 2:
            raise AssertionError('%d results instead of two' % len(p))
        e['obs'] = dict(ok=True, err='', parts=parts, mutated=not same_frame(df, d0), pieces=p)
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(ev=[e], id='apply %s %s axis %d/%d' % (kind, 'ray' if ray else 'pool', axis, seed % 10000))


def limbs(v):
    v = int(v)
    a = abs(v)
    return [-1 if v < 0 else 1, a >> 48, (a >> 24) & 0xffffff, a & 0xffffff]


def parts(v):
    v = float(v)
    if math.isnan(v):
        return ['nan']
    if math.isinf(v):
        return ['inf', 1 if v > 0 else -1]
    if v == 0:
        return ['zero']
    m, e = math.frexp(abs(v))
    m = int(m * 2 ** 53)
    return ['num', 1 if v > 0 else -1, e - 1, m >> 29, m & (2 ** 29 - 1)]


def column(s):
    t = s.dtype
    k = 'float' if pd.api.types.is_float_dtype(t) else 'int' if isinstance(t, np.dtype) and t.kind == 'i' else str(t).rstrip('0123456789') if isinstance(t, np.dtype) else str(t)
    if k == 'int':
        v = [limbs(a) for a in s.values]
    elif k == 'float':
        v = [parts(a) for a in s.values]
    else:
        v = [str(a) for a in s]
    return dict(kind=k, size=t.itemsize if isinstance(t, np.dtype) else 0, v=v)


EDGES = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 24, 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]
FMAX = float(np.finfo(np.float32).max)
FLOATS = [0., 1., 1 / 3, 2 ** 24 + 1., 1e-30, 1e30, FMAX, FMAX * (1 + 1e-9), 1e39, 1e300, np.inf, np.nan, .1, 16777217., 1e-36]


def make(rng, R, objects):
    kind = rng.integers(12 if objects else 7)
    if kind < 4:
        m = EDGES[int(rng.integers(len(EDGES)))]
        lo, hi = -m - int(rng.integers(2)), m
        v = [int(rng.integers(-3, 4)) for _ in range(R)]
        if rng.random() < .8:
            v[int(rng.integers(R))] = max(lo, -2 ** 63)
        if rng.random() < .8:
            v[int(rng.integers(R))] = hi
        t = [b for b in ('int8', 'int16', 'int32', 'int64') if min(v) >= np.iinfo(b).min and max(v) <= np.iinfo(b).max]
        return np.array(v, dtype='int64').astype(t[-1] if rng.random() < .6 else t[int(rng.integers(len(t)))])
    if kind < 7:
        v = np.array([FLOATS[int(i)] for i in rng.integers(len(FLOATS) if rng.random() < .4 else 7, size=R)]) * rng.choice([1, -1], R)
        if rng.random() < .5:
            v = v + np.where(np.abs(v) < 1e6, rng.random(R), 0)
        if rng.random() < .3:
            with np.errstate(over='ignore'):
                v = v.astype('float32')
        return v
    if kind == 7:
        return np.array(['%d' % i for i in rng.integers(5, size=R)], dtype=object)
    if kind == 8:
        return rng.random(R) < .5
    if kind == 9:
        return pd.Categorical(['k%d' % i for i in rng.integers(3, size=R)])
    if kind == 10:
        return np.array([0, 2 ** 64 - 1] * R, dtype='uint64')[:R]
    return pd.date_range('2020-01-01', periods=R, freq='h')


def c20_reduce(item):
    seed, mode = item
    rng = np.random.default_rng(seed)
    R, C = int(rng.integers(2, 6)), int(rng.integers(1, 14))
    df = table(rng, R, C)
    idx, cols = df.index, df.columns
    if rng.random() < .15:
        idx = idx[:1].append(idx[:-1])          # stacked series: repeated time stamps
    vals = [make(rng, R, True) for _ in range(C)]
    df = pd.concat([pd.Series(v, index=idx) for v in vals], axis=1) if not idx.has_duplicates else pd.DataFrame(dict(enumerate(vals)), index=idx)
    df.columns = cols
    e = dict(op='reduce', cols=[column(df.iloc[:, c]) for c in range(C)])
    try:
        if mode == 'frame':
            r = bd.reduce_mem_usage_df(df)
        else:
            r = bd.reduce_mem_usage(df.copy(), parallel=mode != 'serial', use_ray=mode == 'ray')
        lab = isinstance(r, pd.DataFrame) and r.shape == (R, C) and list(r.columns) == list(cols) and r.columns.nlevels == cols.nlevels and r.index.equals(idx) and r.index.dtype == idx.dtype
        e['obs'] = dict(ok=True, err='', labels=bool(lab), cols=[column(r.iloc[:, c]) for c in range(C)] if lab else [])
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return dict(ev=[e], id='reduce %s/%d' % (mode, seed % 10000))


def c20(c):
    c.design('CompactMC', c.n('CompactMC.cfg', 'CompactMC_deep.cfg'), must_cover=('Work', 'Join', 'Shrink'))
    rng = c.rng('c20')
    S = lambda n: [int(s) for s in rng.integers(1 << 30, size=n)]
    tr = pmap(c20_split, S(c.n(400, 6000)))
    tr += pmap(c20_apply, [(s, True) for s in S(c.n(400, 5000))])
    tr += pmap(c20_reduce, [(s, m) for m in ('serial', 'frame', 'ray') for s in S(c.n(250, 4000))])
    tr += pmap(c20_apply, [(s, False) for s in S(c.n(24, 200))], procs=2)
    tr += pmap(c20_reduce, [(s, 'pool') for s in S(c.n(24, 200))], procs=2)
    c.assumptions.append('the ray cluster is replaced by a stand-in that runs each task once on a copy of its arguments and returns results in the order asked')
    c.validate('CompactTrace', tr, shards=8)
