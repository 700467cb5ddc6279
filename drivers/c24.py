"""C24: chains of real experiments, each opened with the log or configuration another left."""
from evolib import *
from yuca.ca.continuous import CCA
from yuca.ca.neural import NCA
from yuca.lenia import Lenia
from yuca.cppn import CPPN, CPPNPlus
from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
from yuca.wrappers.glider_wrapper import GliderWrapper

out = Out()
REPO = os.environ["VERIF_REPO_COPY"]
os.chdir(REPO)
for d in ("logs", "assets"):
    os.makedirs(d, exist_ok=True)
CLS = dict(CCA=CCA, Lenia=Lenia, NCA=NCA)
SHIPPED = ["orbium.npy", "geminium.npy", "hedgehog.npy", "s613.npy", "p_sinus_labens.npy"]
MADE = []


class Small(CPPN):                  # CPPNs whose covariance is quickly factored
    def __init__(self, **kw):
        super().__init__(**dict(kw, hidden_dim=2))


class SmallPlus(CPPNPlus):
    def __init__(self, **kw):
        super().__init__(**dict(kw, hidden_dim=2))


def f32(v):
    return np.asarray(v, dtype=np.float64).ravel().astype(np.float32)


def chain(i):
    R = rng("c24", i)
    fam = R.choice(["CCA", "CCA", "CCA", "Lenia", "NCA"])
    C = CLS[fam]
    extra = dict(hidden_channels=R.choice([2, 4])) if fam == "NCA" else {}
    radius = R.choice([2, 3, 4])
    steps = R.choice([1, 2, 3])
    wide = fam == "CCA" and R.random() < .15
    dim = 40 if wide else 16

    def go(t):
        tab, files = {}, []
        R2 = np.random.RandomState(i)
        grid = torch.tensor(np.round(R2.rand(1, 1, dim, dim) * 64) / 64, dtype=torch.get_default_dtype())

        def rid(v):
            return vid(tab, f32(v))

        def frame(ca):
            ca.eval()
            g = ca(grid)
            return qa(g[0, 0, ::max(1, dim // 6), ::3], 1 << 16)

        def opened(path):
            a = C(ca_config=path) if R.random() < .5 else C(**extra)
            a.restore_config(path)
            a.no_grad()
            return a

        if wide:
            for name in R.sample(SHIPPED, 2):
                ca = CCA()
                ca.restore_config(name)
                ca.no_grad()
                t.ev("shipped", name=name, rule=rid(ca.get_params()), frame=frame(ca))
                files.append(dict(cfg=name, log=None, kind="rule", width=len(ca.get_params())))
        for k in range(R.choice([2, 3, 3, 4, 5])):
            kind = R.choice(["rule", "rule", "rule", "pattern", "pattern", "coevo"])
            logs = [j + 1 for j, f in enumerate(files) if f["log"]]
            cfgs = [j + 1 for j, f in enumerate(files)]
            how = R.choice(["log", "log", "log", "log", "cfg", "both", "none"]) if files else "none"
            log = R.choice(logs) if how in ("log", "both") and logs else 0
            if logs and log and R.random() < .5:
                log = logs[-1]
            cfg = R.choice(cfgs) if how in ("cfg", "both") else 0
            if log and not cfg and files[log - 1]["kind"] != "rule":
                if kind == "coevo" and files[log - 1]["kind"] == "coevo":
                    pass
                else:                                     # a log of patterns does not say which rules they lived in
                    cfg = log
            if log and files[log - 1]["width"] != (files[cfg - 1]["width"] if cfg else len(np.ravel(C(kernel_radius=radius, **extra).get_params()))):
                cfg = log                         # rules of another make need their configuration
            env = GliderWrapper if kind != "rule" else R.choice([SimpleHaltingWrapper, SimpleHaltingWrapper, HaltingWrapper]) if not (log and cfg) else HaltingWrapper
            if kind == "rule" and log and cfg and files[log - 1]["kind"] != "rule":
                log = 0
            n = R.choice([1, 2, 3, 4, 7, 8, 8, 9, 16] if kind == "pattern" else [1, 2, 3, 4, 8, 8, 9])
            gens, reps, mode = R.choice([1, 2, 2, 3]), 1, R.choice([0, 0, 1, 2])
            if wide:
                n, gens = min(n, R.choice([3, 3, 8])), 1
            seeds = [R.randint(1, 50)] if R.random() < .7 else [R.randint(1, 25), R.randint(26, 50)]
            kw = dict(extra, ca_fn=C, env_fn=env, agent_fn=dict(rule=ParamsAgent, pattern=Small, coevo=SmallPlus)[kind],
                      tag="%s c24" % dict(rule="universe", pattern="pattern", coevo="coevo")[kind],
                      population_size=n, generations=gens, replicates=reps, selection_mode=mode, seed=seeds,
                      dim=dim, ca_steps=steps, batch_size=R.choice([1, 2]) if kind == "rule" else 1, kernel_radius=radius,
                      external_channels=1, internal_channels=1, prediction_mode=R.choice([0, 1, 2]))
            if R.random() < .5:
                kw.update(ca_config=None, input_filepath=None)
            if log:
                p = files[log - 1]["log"]
                kw["input_filepath"] = os.path.abspath(p) if R.random() < .5 else p
            if cfg:
                p = files[cfg - 1]["cfg"]
                kw["ca_config"] = R.choice([p, os.path.basename(p), os.path.join("ca_configs", os.path.basename(p))])
            seed0 = R.randrange(1 << 20)
            np.random.seed(seed0)
            torch.manual_seed(seed0)        # a neural default is drawn
            default = C(kernel_radius=radius, **extra)
            E = cmaes.CMACES if kind == "coevo" else cmaes.CMAES
            np.random.seed(seed0)
            torch.manual_seed(seed0)
            with quiet():
                cm = E(**kw)
            cm.exp_id = "%s_%d_%d" % (cm.exp_id, i, k)
            now = rid(cm.env.ca.get_params())

            def part(p):
                """the rules an individual stands for"""
                p = np.asarray(p, dtype=np.float64).ravel()
                if kind == "rule":
                    return p
                return p[len(p) - len(np.ravel(cm.env.ca.get_params())):]

            mean = np.asarray(cm.starting_means, dtype=np.float64).ravel()
            size = len(mean)
            probe = slice(0, size, max(1, size // 40))
            # a neural automaton does not read logs on its own, and a co-evolved log holds more than rules
            free = (not cfg) and (fam == "NCA" and (log == 0 or env is not GliderWrapper) or bool(log) and files[log - 1]["kind"] != "rule")
            t.ev("open", kind=kind, log=log, cfg=cfg, rule=now, default=rid(default.get_params()), free=bool(free),
                 size=size, n=n, mean=qa(mean[probe], 1024), mrule=rid(part(mean)) if kind != "pattern" else 0,
                 frame=frame(cm.env.ca))
            seen = []
            real = cm.get_fitness

            def watched(idx, *a, **kk):
                before = rid(cm.env.ca.get_params())
                p = np.array(cm.population[idx].get_params(), dtype=np.float64)
                r = real(idx, *a, **kk)
                seen.append(dict(id=rid(p), own=rid(part(p)) if kind != "pattern" else 0, before=before, after=rid(cm.env.ca.get_params())))
                return r
            cm.get_fitness = watched
            with quiet():
                cm.search()
            for j, s in enumerate(seen):
                g = j % (n * gens)
                t.ev("eval", first=g < n, **s)
                if g == n - 1:
                    t.ev("first")
            # what was left stands on its own: the files it came from may be gone by now
            gone = [p for p in ([files[log - 1]["log"]] if log else []) + ([files[cfg - 1]["cfg"]] if cfg else []) if os.path.sep in p]
            gone = [os.path.abspath(p) for p in dict.fromkeys(gone)] if R.random() < .7 else []
            for p in gone:
                os.rename(p, p + ".away")
            for s in seeds:
                path = "./logs/%s_seed%s.npy" % (cm.exp_id, s)
                lg = np.load(path, allow_pickle=True).reshape(1)[0]
                conf = os.path.join(REPO, "ca_configs", "%s_seed%s.npy" % (cm.exp_id, s))
                MADE.extend([conf, path])
                el = [np.asarray(p, dtype=np.float64).ravel() for p in lg["elite_params"][-1]]
                best = rid(part(el[0])) if kind != "pattern" else 0
                others = []
                for c in lg["elite_configs"][-1]:
                    others.append(C(**extra))
                    others[-1].load_config(c)
                    others[-1].no_grad()
                other = others[0]
                mine = opened(conf)
                t.ev("end", elites=[rid(p) for p in el], vecs=[qa(p[probe], 1024) for p in el], best=best,
                     saved=rid(mine.get_params()), logged=[rid(c.get_params()) for c in others],
                     parts=[rid(part(p)) if kind != "pattern" else 0 for p in el], sframe=frame(mine), lframe=frame(other))
                files.append(dict(cfg=conf, log=path, kind=kind, width=len(np.ravel(mine.get_params()))))
            for p in gone:
                os.rename(p + ".away", p)
    out.guard("chain%d" % i, go)


try:
    for i in range(900 if THOROUGH else 120):
        if i % int(os.environ.get("SHARDS", "1")) == int(os.environ.get("SHARD", "0")):
            chain(i)
finally:
    for p in MADE:
        for q in (p, p + ".away"):
            if os.path.exists(q):
                os.remove(q)
out.write()
