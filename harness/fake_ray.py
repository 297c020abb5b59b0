"""A stand-in for the ray cluster: every task runs once on a copy of its arguments, in a random order of completion;
results come back in the order asked for.  Installed as module `ray` before the code under test is imported."""
import copy, sys, types
import numpy as np


class _Ref:
    def __init__(self, f, a, k):
        self.f, self.a, self.k, self.done = f, copy.deepcopy(a), copy.deepcopy(k), False

    def run(self):
        if not self.done:
            self.v, self.done = self.f(*self.a, **self.k), True
        return copy.deepcopy(self.v)


class _Remote:
    def __init__(self, f):
        self.f = f

    def remote(self, *a, **k):
        return _Ref(self.f, a, k)


class _Put(_Ref):
    def __init__(self, v):
        self.v, self.done = copy.deepcopy(v), True


def install():
    m = types.ModuleType('ray')
    st = {'up': False}

    def remote(*a, **k):
        return _Remote(a[0]) if a and callable(a[0]) else (lambda f: _Remote(f))

    def get(r, **k):
        if isinstance(r, list):
            for i in np.random.RandomState(len(r)).permutation(len(r)):
                r[i].run()
            return [x.run() for x in r]
        return r.run()
    m.remote, m.get, m.put = remote, get, _Put
    m.wait = lambda rs, num_returns=1, **k: (rs[:num_returns], rs[num_returns:])
    m.init = lambda *a, **k: st.update(up=True)
    m.shutdown = lambda *a, **k: st.update(up=False)
    m.is_initialized = lambda: st['up']
    m.available_resources = lambda: {'CPU': 4.}
    sys.modules['ray'] = m
