"""C11: selection, the search distribution and the next population, update by update."""
from evolib import *

out = Out()


class VecAgent(ParamsAgent):
    """the real agent, whatever keyword it is built with"""


def vec(p):
    return qa(np.asarray(p, dtype=np.float64).ravel(), 1024)


class Watch:
    """records np.random.randint results while active"""
    def __enter__(self):
        self.calls, self.real = [], np.random.randint
        def f(*a, **k):
            r = self.real(*a, **k)
            self.calls.append(np.array(r).ravel().tolist())
            return r
        np.random.randint = f
        return self

    def __exit__(self, *a):
        np.random.randint = self.real


def make(n, d, mode, start=None, R=None, **kw):
    StubEnv.landscape = staticmethod(lambda a, env: 0.0)
    start = start if start is not None else [R.randint(-8, 8) / 8 for _ in range(d)]
    return cmaes.CMAES(env_fn=StubEnv, agent_fn=ParamsAgent, population_size=n, selection_mode=mode,
                       start=start, tag=kw.pop("tag", "c11"), **kw)


def snap(cm, tab):
    ps = [np.array(a.get_params(), dtype=np.float64) for a in cm.population]
    return dict(ids=[vid(tab, p) for p in ps], pop=[vec(p) for p in ps], mean=vec(cm.means),
                cov=qa(cm.covar, 1024))


def fitness(R, n):
    s = R.random()
    if s < .15:
        return [R.choice([0, -4, 7])] * n
    if s < .45:
        return [R.randint(-2, 2) for _ in range(n)]
    if s < .55:
        return list(range(n))
    if s < .65:
        return list(range(n))[::-1]
    if s < .75:          # the best sit at the far end, worst first
        f = [R.randint(-50, 0) for _ in range(n)]
        for i in range(n - (n // 8 + 1), n):
            f[i] = R.randint(1, 60)
        return f
    if s < .9:           # the best sit at the front
        f = [R.randint(-50, 0) for _ in range(n)]
        for i in range(min(n, n // 8 + 1)):
            f[i] = R.randint(1, 60)
        return f
    return [R.randint(-1000, 1000) for _ in range(n)]


def put(t, cm, tab, R, n, d):
    """a population of distinct exactly representable vectors"""
    seen = set()
    for a in cm.population:
        while True:
            v = tuple(R.randint(-32, 32) for _ in range(d))
            if v not in seen or len(seen) > 60 ** d:
                break
        seen.add(v)
        a.set_params(np.array(v, dtype=np.float64) / 8)
    t.ev("put", **{k: v for k, v in snap(cm, tab).items() if k in ("ids", "mean")})


def one(t, cm, tab, R, n, mode, rank=False, form=None):
    fit = fitness(R, n)
    byid = {}            # equal individuals have equal fitness
    fit = [byid.setdefault(vid(tab, a.get_params()), f) for a, f in zip(cm.population, fit)]
    form = form or R.choice(["list", "np32", "npf"])
    vals = [f / 8 for f in fit]
    arg = vals if form == "list" else [np.float32(v) for v in vals] if form == "np32" else [np.array(v) for v in vals]
    with Watch() as w:
        if rank:
            cm.rank_population(arg, seed=1)
        else:
            cm.update_population(arg)
    flat = [x for c in w.calls for x in c]
    k = n // 8 + 1
    br = [[x + 1 for x in flat[i * k:(i + 1) * k]] for i in range(k)] if len(flat) == k * k and not rank else []
    s = snap(cm, tab)
    t.ev("rank" if rank else "update", n=n, mode=mode, fit=fit, brackets=br,
         eids=[vid(tab, p) for p in cm.elite_params], evec=[vec(p) for p in cm.elite_params], **s)


def history(i):
    R = rng("c11", i)
    n = R.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40])
    d = R.choice([1, 2, 2, 3, 5])
    mode = i % 3

    def go(t):
        np.random.seed(R.randint(0, 9999)); torch.manual_seed(0)
        cm = make(n, d, mode, R=R)
        tab = {}
        cm.reset()
        start = vec(cm.env.ca.get_params())
        # the starting spread of the later parameters is below the grid of this trace: look at it closer
        s = snap(cm, tab)
        s["cov"] = qa(cm.covar, 1 << 20)
        t.ev("init", n=n, given=[], start=start, **s)
        for u in range(R.choice([2, 3, 5])):
            wild = max(np.abs(a.get_params()).max() for a in cm.population) > 8
            if wild or R.random() < .8:
                put(t, cm, tab, R, n, d if d > 1 else 1)
            one(t, cm, tab, R, n, mode)
        if max(np.abs(a.get_params()).max() for a in cm.population) > 8:
            put(t, cm, tab, R, n, d)
        one(t, cm, tab, R, n, mode, rank=True)
        if R.random() < .3:
            cm.elite_params = None
            cm.reset()
            s = snap(cm, tab)
            s["cov"] = qa(cm.covar, 1 << 20)
            t.ev("init", n=n, given=[], start=start, **s)
    out.guard("hist-%d" % i, go)


def given(i):
    """a search seeded with the elites of an earlier log"""
    R = rng("c11given", i)
    n = R.choice([1, 4, 8, 9, 16, 24, 30])
    k = n // 8 + 1
    d = R.choice([2, 3])

    def go(t):
        np.random.seed(R.randint(0, 9999))
        rows = np.array([[R.randint(-24, 24) / 8 for _ in range(d)] for _ in range(k + R.choice([0, 2]))])
        older = rows[::-1] + 1.0
        path = os.path.join(os.environ["VERIF_SCRATCH"], "given%d.npy" % i)
        np.save(path, dict(elite_params=[older, rows]))
        cm = make(n, d, i % 3, R=R, input_filepath=path)
        tab = {}
        cm.reset()
        s = snap(cm, tab)
        s["cov"] = qa(cm.covar, 1 << 20)
        t.ev("init", n=n, given=[vid(tab, r) for r in rows[:k]], start=vec(np.mean(rows[:k], axis=0)), **s)
        one(t, cm, tab, R, n, i % 3)
        # a log of another kind of agent is not used
        bad = os.path.join(os.environ["VERIF_SCRATCH"], "other%d.npy" % i)
        np.save(bad, dict(elite_params=[np.ones((k, d + 2))]))
        cm = make(n, d, 0, R=R, input_filepath=bad)
        cm.reset()
        s = snap(cm, tab)
        s["cov"] = qa(cm.covar, 1 << 20)
        t.ev("init", n=n, given=[], start=vec(cm.env.ca.get_params()), **s)
    out.guard("given-%d" % i, go)


def large(i):
    """many samples of one distribution"""
    R = rng("c11large", i)
    n, d = 800, 2

    def go(t):
        np.random.seed(R.randint(0, 9999))
        cm = make(n, d, i % 3, R=R, tag="pattern c11" if i % 2 else "c11", params=np.array([0.5, -0.25]))
        tab = {}
        cm.reset()
        s = snap(cm, tab)
        start = cm.env.ca.get_params() if i % 2 == 0 else np.array([0.5, -0.25])
        if i % 2 == 0:
            s["cov"] = qa(cm.covar, 1 << 20); s.pop("pop"); s["pop"] = []
            t.ev("put", **s)
        else:
            t.ev("init", n=n, given=[], start=vec(start), **s)
        sh = R.choice([1, -1])
        for j, a in enumerate(cm.population):
            x, y = R.gauss(0, 1), R.gauss(0, 1)
            a.set_params(np.round(np.array([x * 1.5, sh * x + y]) * 1024) / 1024)
        t.ev("put", **{k: v for k, v in snap(cm, tab).items() if k in ("ids", "mean")})
        one(t, cm, tab, R, n, i % 3)
    out.guard("large-%d" % i, go)


def tally(i, n, mode, updates):
    R = rng("c11tally", i)

    def go(t):
        np.random.seed(R.randint(0, 99999))
        cm = make(n, 1, mode, R=R)
        cm.reset()
        counts = [0] * n
        for u in range(updates):
            order = list(range(n)); R.shuffle(order)       # order[i]: rank-1 of individual i
            for a, r in zip(cm.population, order):
                a.set_params(np.array([float(r)]))
            cm.update_population([float(-r) for r in order])
            el = [int(round(float(p[0]))) for p in cm.elite_params]
            for r in (el if mode == 1 else el[:1]):
                counts[r] += 1
        t.ev("tally", n=n, mode=mode, counts=counts)
    out.guard("tally-%d-m%d-n%d" % (i, mode, n), go)


if __name__ == "__main__":
    for i in range(600 if THOROUGH else 150):
        history(i)
    for i in range(60 if THOROUGH else 18):
        given(i)
    for i in range(12 if THOROUGH else 4):
        large(i)
    for i, (n, mode) in enumerate([(8, 1), (8, 2), (16, 1), (16, 2), (5, 2), (26, 1)] * (4 if THOROUGH else 1)):
        tally(i, n, mode, 1500)
    out.write()
