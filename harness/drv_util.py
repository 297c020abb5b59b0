"""Conformance drivers of the numerical building blocks: C29 (Kalman filter), C30 (bootstrap)."""
import contextlib, io
import numpy as np, pandas as pd
from core import pmap
from fcst import *


def spd(rng, n, low, small=False):
    """a symmetric integer matrix, positive (semi)definite"""
    k = int(rng.integers(low, n + 1))
    A = rng.integers(-1, 2, (n, max(k, 1))) if k else np.zeros((n, 1), dtype=int)
    M = A @ A.T
    if low == n:
        M = M + np.diag(rng.integers(1, 3, n))
    return M


def step(rng):
    from pyforecaster.utilities import kalman, kalman_predict, kalman_update
    n, p = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    i = lambda *s: rng.integers(-2, 3, s)
    F = np.eye(n, dtype=int) if rng.random() < .2 else i(n, n)
    P, Q, H, x, y = spd(rng, n, n), spd(rng, n, 0), i(p, n), i(n) * 3, i(p) * 4
    R = spd(rng, p, p)
    if rng.random() < .2 and p <= n:                  # a measurement without any error
        H, R = np.eye(n, dtype=int)[:p] * int(rng.integers(1, 3)), np.zeros((p, p), dtype=int)
        Q = spd(rng, n, n)
    elif p == 2 and rng.random() < .2:
        H[1] = 0                                      # says nothing
    e = dict(op='step', x=x.tolist(), P=P.tolist(), F=F.tolist(), Q=Q.tolist(), H=H.tolist(), R=R.tolist(), y=y.tolist(), upd=True)
    a = dict(x=x, P=P, F=F, Q=Q, y=y, H=H, R=R)
    a = {k: np.array(v, dtype=float) for k, v in a.items()}
    b = {k: v.copy() for k, v in a.items()}
    try:
        px, pP = kalman_predict(a['x'], a['P'], a['F'], a['Q'])
        ux, uP = kalman_update(a['x'], a['P'], a['y'], a['H'], a['R'])
        kx, kP = kalman(a['x'], a['P'], a['F'], a['Q'], a['y'], a['H'], a['R'])
        e['obs'] = dict(ok=True, mutated=not all(np.array_equal(a[k], b[k]) for k in a), px=[rnd(v, 1000) for v in px], ux=[rnd(v, 1000) for v in ux], kx=[rnd(v, 1000) for v in kx],
                        pP=mat(pP, 1000), uP=mat(uP, 1000), kP=mat(kP, 1000))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return e


def fuse(rng):
    from pyforecaster.utilities import kalman_update
    n, p = int(rng.integers(1, 7)), int(rng.integers(2, 6))
    B = rng.normal(size=(n, n))
    P = B @ B.T + np.eye(n) * float(rng.choice([.1, 1, 10]))
    x, H = rng.normal(size=n) * 5, rng.normal(size=(p, n))
    r = rng.uniform(.2, 4, p)
    y = rng.normal(size=p) * 5
    S = 1e4 / np.abs(P).max()
    V = 1e4
    probes = [[int(v) for v in rng.integers(-2, 3, n)] for _ in range(12)]
    e = dict(op='fuse', P0=mat(P, S), probes=probes, tol=8)

    def chain(order):
        m, C = x.copy(), P.copy()
        for j in order:
            m, C = kalman_update(m, C, y[[j]].copy(), H[[j]].copy(), np.array([[r[j]]]))
        return m, C
    try:
        m, C = kalman_update(x.copy(), P.copy(), y.copy(), H.copy(), np.diag(r))
        ms, Cs = chain(range(p))
        mp, Cp = chain(rng.permutation(p))
        vec = lambda v: [rnd(u, V) for u in v]
        e['obs'] = dict(ok=True, mutated=False, x=vec(m), xseq=vec(ms), xperm=vec(mp), P=mat(C, S), Pseq=mat(Cs, S), Pperm=mat(Cp, S))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return e


def run(rng):
    """a chain of full steps: the last state is the least squares estimate given all that was seen"""
    from pyforecaster.utilities import kalman
    n, p, T = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 9))
    F = rng.normal(size=(n, n)) / np.sqrt(n)
    B, D, G = rng.normal(size=(n, n)), rng.normal(size=(n, n)), rng.normal(size=(p, p))
    P, Q, R = B @ B.T + np.eye(n), D @ D.T + .1 * np.eye(n), G @ G.T + .2 * np.eye(p)
    H, x = rng.normal(size=(p, n)), rng.normal(size=n) * 3
    ys = rng.normal(size=(T, p)) * 4
    e = dict(op='run', tol=15)
    try:
        m, C = x.copy(), P.copy()
        for t in range(T):
            m, C = kalman(m, C, F.copy(), Q.copy(), ys[t].copy(), H.copy(), R.copy())
        # joint normal distribution of the last state and all observations
        mean, cov = [x], [[P]]
        A = [np.eye(n)]
        mx, Cx = x, P
        states = []
        K = np.zeros((n * (T + 1), n * (T + 1)))
        K[:n, :n] = P
        mu = [x]
        for t in range(1, T + 1):
            mu.append(F @ mu[-1])
            for s in range(t):
                K[t * n:(t + 1) * n, s * n:(s + 1) * n] = F @ K[(t - 1) * n:t * n, s * n:(s + 1) * n]
                K[s * n:(s + 1) * n, t * n:(t + 1) * n] = K[t * n:(t + 1) * n, s * n:(s + 1) * n].T
            K[t * n:(t + 1) * n, t * n:(t + 1) * n] = F @ K[(t - 1) * n:t * n, (t - 1) * n:t * n] @ F.T + Q
        HH = np.zeros((T * p, n * (T + 1)))
        for t in range(T):
            HH[t * p:(t + 1) * p, (t + 1) * n:(t + 2) * n] = H
        SS = HH @ K @ HH.T + np.kron(np.eye(T), R)
        W = K[-n:] @ HH.T @ np.linalg.inv(SS)
        mb = mu[-1] + W @ (ys.ravel() - HH @ np.concatenate(mu))
        Cb = K[-n:, -n:] - W @ HH @ K[:, -n:]
        S, V = 1e4 / max(np.abs(Cb).max(), 1e-3), 1e4 / max(np.abs(mb).max(), 1)
        e['obs'] = dict(ok=True, mutated=False, x=[rnd(v, V) for v in m], xbatch=[rnd(v, V) for v in mb], P=mat(C, S), Pbatch=mat(Cb, S))
    except Exception as ex:
        e['obs'] = dict(ok=False, err=err_name(ex))
    return e


def c29_item(seed):
    rng = np.random.default_rng(seed)
    return dict(id='kalman/%d' % (seed % 100000), ev=[step(rng) for _ in range(12)] + [fuse(rng) for _ in range(4)] + [run(rng) for _ in range(4)])


def c29(c):
    c.design('KalmanMC', 'KalmanMC_deep.cfg' if c.thorough else 'KalmanMC.cfg', must_cover=['Take', 'Spread'])
    rng = c.rng('c29')
    c29_item(1)                                       # compiled before the processes fork
    tr = pmap(c29_item, [int(rng.integers(1 << 30)) for _ in range(c.n(40, 1200))])
    c.validate('KalmanTrace', tr, shards=4, keyfn=lambda t, s, cl: cl)


STATS = {'sum': lambda v: v.sum(), 'spread': lambda v: v.max() - v.min(), 'max': lambda v: v.max(), 'median': lambda v: float(np.median(v)), 'count': lambda v: len(v)}


def c30_item(seed):
    from pyforecaster.stat_utils import bootstrap
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(3):
        n = int(rng.integers(2, 8))
        distinct = bool(rng.random() < .6)
        vals = rng.permutation(np.arange(-9, 10))[:n] if distinct else rng.integers(-4, 5, n)
        labels = [range(n), pd.date_range('2023', periods=n, freq='h'), [0] * n, list('abcdefg')[:n], rng.permutation(n), np.arange(n) / 2, [int(v) for v in rng.integers(0, 3, n)]][int(rng.integers(7))]
        s = pd.Series(vals.astype(float if rng.random() < .6 else int), index=labels)
        N = int(rng.choice([3, 40, 100, 101, 130, 260]))
        kind = ['sum', 'spread', 'max', 'median', 'count'][int(rng.integers(5))]
        fn, calls = STATS[kind], []
        array = rng.random() < .5         # a statistic which would work on a single value as well

        def stat(v):
            a = np.atleast_1d(np.asarray(v))
            calls.append([int(u) for u in a])
            return fn(a) if array else fn(pd.Series(v.values))
        e = dict(op='boot', kind=kind, series=[int(v) for v in vals], N=N, distinct=distinct and N >= 40)
        c = s.copy()
        sd = int(rng.integers(1 << 30))
        try:
            np.random.seed(sd)
            r = bootstrap(s, stat, n_sampling=N)
            e['obs'] = dict(ok=True, mutated=not (s.equals(c) and s.index.equals(c.index)), samples=calls[-N:], mean=rnd(float(r['mean']), 100), std=rnd(float(r['std']), 100))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
        e = dict(op='same')
        name = ['sum', 'max', 'median', 'mean', 'min'][int(rng.integers(5))]
        try:
            two = lambda r: [rnd(float(r['mean']), 10000), rnd(float(r['std']), 10000)]
            np.random.seed(sd)
            a = bootstrap(s, name, n_sampling=N)
            np.random.seed(sd)
            b = bootstrap(s.reset_index(drop=True), lambda v: getattr(v, name)(), n_sampling=N)
            e['obs'] = dict(ok=True, mutated=not (s.equals(c) and s.index.equals(c.index)), a=two(a), b=two(b))
        except Exception as ex:
            e['obs'] = dict(ok=False, err=err_name(ex))
        ev.append(e)
    return dict(id='bootstrap/%d' % (seed % 100000), ev=ev)


def c30(c):
    c.design('ResampleMC', 'ResampleMC_deep.cfg' if c.thorough else 'ResampleMC.cfg', must_cover=['Draw'])
    rng = c.rng('c30')
    tr = pmap(c30_item, [int(rng.integers(1 << 30)) for _ in range(c.n(40, 800))])
    c.validate('ResampleTrace', tr, shards=4, keyfn=lambda t, s, cl: cl)
