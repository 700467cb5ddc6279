"""C12: whole serial evolution runs: evaluations, logs, final ranking, seeds."""
from evolib import *
import copy
from yuca.cppn import CPPN, CPPNPlus

out = Out()
SF = 64


def q64(x):
    return int(round(float(x) * SF))


class PatternAgent(ParamsAgent):
    """a pattern whose pixels are its parameters"""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.params = np.asarray(self.params, dtype=np.float64)

    def get_action(self, obs=None):
        return torch.tensor(self.params).reshape(1, 1, 1, -1)


class CoAgent(ParamsAgent):
    """first two parameters: the pattern; the rest: the rule"""

    def __init__(self, **kw):
        if "ca_params" in kw:
            kw = dict(params=np.append(np.array([0.25, 0.5]), kw["ca_params"]))
        super().__init__(**kw)

    def get_action(self, obs=None):
        return self.params[2:], torch.tensor(self.params[:2]).reshape(1, 1, 1, 2)


def landscape(kind, n, reps, R):
    salt = R.randint(1, 9999)
    base, up, part = R.choice([0.25, 3.0, -5.0]), R.choice([1, 2, 3, 3, 4, 5, 6, 8]), R.choice([2, 2, 3, 8])

    def level(a):
        h = hashlib.sha1(np.asarray(a, dtype=np.float64).tobytes() + str(salt).encode()).digest()
        return h[0] % 64

    def f(a, env):
        noise = int(torch.randint(0, 8, (1,)).item())          # depends on the evaluation seed
        if kind == "flat":
            return -0.5
        if kind == "hash":
            return (level(a) - 32) / SF
        if kind == "noisy":
            return (level(a) - 32 + noise) / SF
        if kind == "late":                                     # flat from some generation on
            g = env.gen
            return (level(a) - 20) / SF if g < env.late else 0.25
        if kind == "near":                                     # a spread close to the one that ends a run
            g = env.gen
            if g < env.late - 3:
                return base + level(a) / SF
            return base + (up if level(a) % part == 0 else 0) / SF
        if kind == "one":                                      # a single good individual
            return 1.0 if level(a) < 6 else -1.0
        if kind == "smooth":
            return float(np.round((1.0 - min(1.9, float(np.abs(a).mean()))) * SF)) / SF
    return f


def build(kind, n, gens, reps, mode, seeds, family, land, env_seed, **kw):
    StubEnv.landscape = staticmethod(land)
    np.random.seed(env_seed); torch.manual_seed(env_seed)
    cls = cmaes.CMACES if family == "coevo" else cmaes.CMAES
    agent = {"universe": ParamsAgent, "pattern": PatternAgent, "coevo": CoAgent}[family]
    cm = cls(env_fn=StubEnv, agent_fn=agent, population_size=n, generations=gens, replicates=reps,
             selection_mode=mode, seed=seeds, tag="%s c12" % family, dim=8, rule_env=family == "universe", **kw)
    cm.exp_id = "%s_%d" % (cm.exp_id, build.n)      # runs within one second share a name otherwise
    build.n += 1
    return cm


build.n = 0


def runit(cm, tab, n):
    """search(); returns the evaluations in order"""
    evals = []
    real = cm.get_fitness
    cm.env.gen, cm.env.late = 0, getattr(cm, "late", 99)

    def watched(idx, *a, **k):
        env = cm.env
        env.gen = len(evals) // n
        env.rewards, env.fps, env.actions, env.budgets = [], [], [], []
        p = np.array(cm.population[idx].get_params(), dtype=np.float64)
        r = real(idx, *a, **k)
        act = env.actions[0] if env.actions else []
        if isinstance(cm, cmaes.CMACES):
            act = np.append(act, env.ca.params)
        evals.append(dict(id=vid(tab, p), aid=vid(tab, act), rewards=[q64(x) for x in env.rewards],
                          fit=q1(r[0], SF * cm.replicates), fp=[int(x) for x in env.fps], budget=list(env.budgets), ok=True))
        return r
    cm.get_fitness = watched
    cm.written = []          # every log as it was written
    save = np.save

    def saving(path, obj, *a, **k):
        save(path, obj, *a, **k)
        if isinstance(obj, dict) and "mean_fitness" in obj:
            SHOWN.clear()          # the pictures made after the last log of the run are those of its outcome
            cm.written.append((os.path.basename(str(path)), copy.deepcopy({k: obj[k] for k in obj if k not in ("kwargs", "elite_configs")})))
    np.save = saving
    SHOWN.clear()
    try:
        cm.search()
    finally:
        np.save = save
    cm.shown = list(SHOWN)
    return evals


def load(cm, seed):
    p = "./logs/%s_seed%s.npy" % (cm.exp_id, seed)
    return np.load(p, allow_pickle=True).reshape(1)[0]


def rule(cm, p):
    p = np.asarray(p, dtype=np.float64).ravel()
    return p[2:] if isinstance(cm, cmaes.CMACES) else p


def emit(t, cm, evals, logs, tab, family, n, reps):
    """interleave evaluations and logged generations, per seed"""
    pos = 0
    rtab = {}
    for s, lg in zip(cm.my_seed, logs):
        G = len(lg["mean_fitness"])
        one = family == "pattern"
        hist = [w for f, w in cm.written if "_seed%s" % s in f]
        if len(hist) != G:
            hist = None                        # written in some other way
        else:
            for g, w in enumerate(hist):       # a log interrupted after generation g tells of g + 1 generations
                t.ev("same", what="log-after-each-generation", a=[len(w[k]) for k in ("mean_fitness", "std_dev_fitness")] + (digest(w) if g == G - 1 else []),
                     b=[g + 1] * 2 + (digest(lg) if g == G - 1 else []))
        prev = None
        for g in range(G):
            for e in evals[pos:pos + n]:
                t.ev("eval", **e)
            pos += n
            has = not one or g == G - 1
            gi = 0 if one else g
            src, gi = (hist[g], 0) if one and hist else (lg, gi)
            has = has or bool(one and hist)
            el = src["elite_params"][gi] if has else []
            m, c = src["distribution"][gi] if has else ([], [[]])
            cfg = lg["elite_configs"][g]
            spread = bool(prev is None or np.abs(prev).max() > 1e-9)      # else all samples are the mean
            prev = c if has else None
            t.ev("log", g=g, last=g == G - 1,
                 mean=q1(lg["mean_fitness"][g], SF * reps * 16, tol=.6), max=q1(lg["max_fitness"][g], SF * reps),
                 min=q1(lg["min_fitness"][g], SF * reps), std=q1(lg["std_dev_fitness"][g], SF * reps * 8, tol=.51),
                 eids=[vid(tab, p) for p in el], evec=[qa(p, 1024) for p in el],
                 cids=[vid(rtab, x["params"]) for x in cfg] if family != "pattern" else [],
                 rids=[vid(rtab, rule(cm, p)) for p in el] if family != "pattern" else [],
                 mvec=qa(m, 1024) if has else [], cov=qa(c, 1024) if has else [], spread=spread)
        t.ev("end", size=len(cm.population))
        if s == cm.my_seed[-1] and cm.alone:
            # a rule search shows its elites' rules, a co-evolution rules and patterns
            fin = lg["elite_params"][-1]
            if family == "universe":
                t.ev("shown", ids=sorted({vid(rtab, r) for _, r in cm.shown}), eids=sorted({vid(rtab, p) for p in fin}))
            elif family == "coevo":
                t.ev("shown", ids=sorted({vid(rtab, np.append(g, r)) for g, r in cm.shown}), eids=sorted({vid(rtab, p) for p in fin}))
        paths = [x for x in cm.env.ca.saved if os.path.basename(str(x[0])).split(".")[0].endswith("_seed%s" % s)
                 and cm.exp_id in str(x[0]) and "ca_configs" in str(x[0])]
        best = lg["elite_params"][-1][0]
        t.ev("saved", paths=len(paths), rid=vid(rtab, paths[-1][1]) if paths else 0,
             best=vid(rtab, rule(cm, best)) if family != "pattern" else (vid(rtab, paths[-1][1]) if paths else 1))
    for e in evals[pos:]:
        t.ev("eval", **e)


def digest(lg):
    """exact content of a log, without the settings"""
    keys = ["elite_params", "mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness", "distribution"]
    tab = []
    for k in keys:
        for row in lg[k]:
            for x in (row if isinstance(row, list) else [row]):
                tab.append(int(hashlib.sha1(np.round(np.asarray(x, dtype=np.float64), 9).tobytes()).hexdigest()[:7], 16))
    return tab


def one(i):
    R = rng("c12", i)
    n = R.choice([1, 2, 3, 4, 5, 8, 9, 13, 16, 17, 24, 26, 32])
    kind = R.choice(["hash", "noisy", "noisy", "late", "flat", "one", "smooth", "near", "near"])
    family = R.choice(["universe", "universe", "pattern", "coevo"])
    gens = R.choice([1, 2, 3, 4]) if kind not in ("late", "flat", "near") else R.choice([7, 8, 9, 11, 13])
    reps = R.choice([1, 1, 2, 4])
    mode = R.choice([0, 0, 1, 2])
    seeds = R.choice([[R.randint(1, 99)], R.randint(1, 99), [R.randint(1, 40), R.randint(41, 99)]])
    workers = R.choice([0, 0, 1])
    late = R.choice([6, 7, 8, 9])
    budget = R.choice([1, 3, 8, 100, 700])
    giv = R.random() < .25
    d = 5 if family == "coevo" else 3

    def go(t):
        land = landscape(kind, n, reps, R)
        kw = dict(workers=workers, ca_steps=budget)
        k = n // 8 + 1
        rows = []
        if giv:
            rows = np.array([[R.randint(-24, 24) / 8 for _ in range(d)] for _ in range(k)])
            path = os.path.join(os.environ["VERIF_SCRATCH"], "c12given%d.npy" % i)
            np.save(path, dict(elite_params=[rows]))
            kw["input_filepath"] = path
        tab = {}
        if family == "pattern":
            kw["params"] = np.array([0.5, -0.25, 0.125])
        cm = build(kind, n, gens, reps, mode, seeds, family, land, R.randint(0, 999), **kw)
        cm.late, cm.alone = late, True
        if len(cm.my_seed) > 1 and kind in ("late", "near"):
            cm.my_seed = cm.my_seed[:1]
        evals = runit(cm, tab, n)
        logs = [load(cm, s) for s in cm.my_seed]
        t.d.update(budget=budget, n=n, reps=reps, gens=gens, mode=mode, given=[vid(tab, r) for r in rows],
                   mean0=qa(np.mean(rows, axis=0), 1024) if giv else qa(kw["params"], 1024) if family == "pattern" else [])
        if len(cm.my_seed) > 1:
            # the first seed is judged step by step, the second by comparison with a run of its own
            m = n * len(logs[0]["mean_fitness"])
            s2, cut = cm.my_seed[1], len(evals)
            full = cm.my_seed
            cm.my_seed = full[:1]
            cm.alone = False           # its pictures are not told from the second seed's
            emit(t, cm, evals[:m], logs[:1], tab, family, n, reps)
            cm2 = build(kind, n, gens, reps, mode, [s2], family, land, R.randint(0, 999), **kw)
            ev2 = runit(cm2, {}, n)
            t.ev("same", what="seed-on-its-own", a=digest(load(cm2, s2)), b=digest(logs[1]))
            t.ev("same", what="evaluations-of-second-seed", a=len(ev2), b=cut - m)
            if not giv:
                t.ev("differ", what="seeds-differ", a=digest(logs[0]), b=digest(logs[1]))
        else:
            emit(t, cm, evals, logs, tab, family, n, reps)
            cm2 = build(kind, n, gens, reps, mode, seeds, family, land, R.randint(0, 999), **kw)
            cm2.late = late
            runit(cm2, {}, n)
            t.ev("same", what="reproducible", a=digest(load(cm2, cm2.my_seed[0])), b=digest(logs[0]))
    out.guard("run-%d-%s-%s-n%d-m%d" % (i, family, kind, n, mode), go,
              head=dict(n=n, reps=reps, gens=gens, mode=mode, given=[], mean0=[], budget=budget))


class SmallCPPN(CPPN):
    def __init__(self, **kw):
        super().__init__(**dict(kw, hidden_dim=3))


class SmallPlus(CPPNPlus):
    def __init__(self, **kw):
        super().__init__(**dict(kw, hidden_dim=3))


def real(i):
    """real wrappers, agents and automata: the saved and logged configurations"""
    from yuca.ca.continuous import CCA
    from yuca.code import CODE
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    from yuca.wrappers.glider_wrapper import GliderWrapper
    R = rng("c12real", i)
    family = ["universe", "coevo", "pattern"][i % 3]
    n = R.choice([2, 8, 9]) if family == "universe" else 2      # a CPPN has ~800 parameters: sampling is slow
    mode = i % 2
    cf = R.choice([CCA, CODE])

    def go(t):
        seed = R.randint(1, 99)

        def run():
            np.random.seed(seed); torch.manual_seed(seed)
            cls = cmaes.CMACES if family == "coevo" else cmaes.CMAES
            agent = {"universe": ParamsAgent, "pattern": SmallCPPN, "coevo": SmallPlus}[family]
            env = GliderWrapper if family != "universe" else R2
            cm = cls(env_fn=env, ca_fn=cf, agent_fn=agent, population_size=n, generations=2, replicates=1,
                     selection_mode=mode, seed=[seed], tag="%s real" % family, dim=16, kernel_radius=2, ca_steps=2,
                     batch_size=2, num_blocks=2, external_channels=1)
            cm.exp_id += "_r%d" % build.n
            build.n += 1
            cm.save_gif = silent_gif
            cm.search()
            return cm, load(cm, seed)
        R2 = R.choice([SimpleHaltingWrapper, HaltingWrapper])
        cm, lg = run()
        tab = {}

        def rid(v):
            return vid(tab, np.round(np.asarray(v, dtype=np.float64).ravel(), 5))

        def part(p):
            if family == "coevo":
                return p[-len(cm.env.ca.get_params()):]
            return p
        path = os.path.join(os.environ["VERIF_REPO_COPY"], "ca_configs", "%s_seed%d.npy" % (cm.exp_id, seed))
        ca = cf()
        ca.restore_config(path)
        best = lg["elite_params"][-1][0]
        t.ev("saved", paths=1, rid=rid(ca.get_params()), best=rid(part(best)) if family != "pattern" else rid(cm.env.ca.get_params()))
        if family != "pattern":
            for g in range(2):
                for el, cfg in zip(lg["elite_params"][g], lg["elite_configs"][g]):
                    ca = cf()
                    ca.restore_config(cfg) if not isinstance(cfg, dict) else ca.load_config(cfg)
                    t.ev("saved", paths=1, rid=rid(ca.get_params()), best=rid(part(el)))
        cm2, lg2 = run()
        t.ev("same", what="reproducible", a=digest(lg), b=digest(lg2))
    out.guard("real-%d-%s" % (i, family), go, head=dict(n=n, reps=1, gens=2, mode=mode, given=[], mean0=[]))


if __name__ == "__main__":
    os.chdir(os.environ["VERIF_REPO_COPY"])
    for i in range(600 if THOROUGH else 110) if "REAL" not in os.environ else []:
        one(i)
    for i in range(24 if THOROUGH else 6):
        real(i)
    out.write()
