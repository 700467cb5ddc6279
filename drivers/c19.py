"""The analyser: universes with scripted soups (vanishing, reviving, escaping),
real rules, entropies of grids, windows and neighbours, and whole directories."""
from harness import *
import hashlib, shutil, warnings
import yuca.analyze as analyze
from yuca.analyze import Phanes
from yuca.ca.continuous import CCA
from yuca.utils import seed_all

warnings.simplefilter("ignore")
out = Out()
BITS = 8192


def gid(g):
    return hashlib.sha1(np.ascontiguousarray(g.detach().cpu().numpy()).tobytes()).hexdigest()[:12]


def small(g, scale=1000):
    """integers that are zero exactly where the grid is"""
    a = g.detach().cpu().double().numpy()[:, 0]
    r = np.rint(a * scale)
    return np.where((a != 0) & (r == 0), 1, r).astype(int).tolist()


def soup(R, d, kind, unit):
    g = torch.zeros(d, d)
    if kind == "dead":
        return g
    n = R.choice([1, 1, 2, 5, d])
    for _ in range(n):
        g[R.randrange(1, d - 1), R.randrange(1, d - 1)] = R.randint(1, min(unit, 4)) / unit
    if kind == "border":
        if R.random() < .4:
            g *= 0
        side, at = R.randrange(4), R.randrange(d)
        i, j = [(0, at), (d - 1, at), (at, 0), (at, d - 1)][side]
        g[i, j] = R.randint(1, min(unit, 4)) / unit
    return g


def universe(n):
    R = rng("c19u", n)
    d = R.choice([8, 8, 12, 16, 9, 11, 10, 20, 7])
    batch = R.choice([1, 1, 2, 3, 5, 8])
    limit = R.choice([1, 2, 3, 5, 8, 9, 17])
    judge = n % 3 == 0
    r = R.choice([1, 2, 3])
    if judge:
        d, batch, limit, r = R.choice([8, 9]), R.choice([1, 2]), R.choice([2, 3, 4]), R.choice([1, 1, 2])
    cppn = R.random() < .3
    unit = R.choice([1, 3, 4]) if judge else R.choice([1, 3, 4, 2 ** 14])     # the last: hardly anything left
    plan = []
    pdead, pesc, revive = R.choice([.1, .4, .8]), R.choice([0, .3, .6]), R.random() < .3
    now = ["inside"] * batch
    for k in range(limit + 3):
        for s in range(batch):
            if now[s] == "dead" and not revive:
                continue
            x = R.random()
            now[s] = "dead" if x < pdead else "border" if x < pdead + (1 - pdead) * pesc else "inside"
        plan.append(list(now))

    def go(t):
        seed_all(1000 + n)

        class Script(CCA):
            def forward(self, grid, *a, **k):
                i = self.calls
                self.calls += 1
                if i == 0:
                    t.ev("start", id=gid(grid), dims=list(grid.shape), grids=small(grid), lowest=qa(grid.min(), 1000),
                         highest=qa(grid.max(), 1000), distinct=len({gid(g) for g in grid}))
                g = torch.stack([soup(R, d, plan[i][s] if i < len(plan) else "inside", unit)[None] for s in range(batch)])
                t.ev("tick", **{"from": gid(grid), "to": gid(g), "grids": small(g, unit)})
                return g

        ph = Phanes(batch_size=batch, dim=d, ca_steps=limit, use_cppn=cppn, kernel_radius=r)
        if not judge:       # entropies are slow and judged elsewhere
            ph.get_spatial_entropy = lambda g, window_size=63: np.zeros(tuple(g.shape))
        ph.ca = Script(kernel_radius=r)
        ph.ca.calls = 0
        ph.ca.to_device("cpu")
        res = ph.analyze_universe()
        t.ev("done", steps=q(res["step"], 1), mortality=q(res["mortality_ratio"], batch), fertility=q(res["fertility_ratio"], batch),
             last=q(res["last_step"], 1), entropy=qa(res["entropy_mean"], BITS), deviation=qa(res["entropy_std_dev"], BITS),
             corr=qa([x[0] for x in res["autocorrelation"]], 1000), cdev=qa([x[1] for x in res["autocorrelation"]], 1000),
             clo=qa([x[2] for x in res["autocorrelation"]], 1000), chi=qa([x[3] for x in res["autocorrelation"]], 1000))
    out.guard("universe-%d" % n, go, head=dict(batch=batch, dim=d, limit=limit, judge=judge, window=2 * r + 1))


def palette(R):
    k = R.choice([1, 2, 2, 3, 5, 9, 40])
    return [R.randrange(0, 1001) for _ in range(k)]


def entropies(n):
    R = rng("c19e", n)

    def go(t):
        ph = Phanes(batch_size=1, dim=8)
        for _ in range(6):
            pal = palette(R)
            h, w = R.choice([(1, 1), (2, 3), (5, 5), (8, 8), (13, 7), (16, 16)])
            v = np.array([[R.choice(pal) for _ in range(w)] for _ in range(h)])
            for fn in (ph.get_grid_entropy, analyze.get_grid_entropy):
                g = (v / 1000.).astype(R.choice([np.float32, np.float64]))
                keep = g.copy()
                e = fn(g)
                t.ev("entropy", vals=v.ravel().tolist(), got=int(qa(e, BITS)), pure=bool((keep == g).all()))
        for _ in range(2):
            pal = palette(R)
            w = R.choice([1, 3, 3, 5, 7])
            h = R.choice([w, w + 1, 7, 8, 9]) if w < 7 else 8
            d2 = max(h, w) + R.choice([0, 1])
            h = max(h, (w - 1) // 2)
            form = R.choice(["2d", "4d", "tensor"])
            ns, nc = (1, 1) if form == "2d" else (R.choice([1, 2]), R.choice([1, 2]))
            v = np.array([[[R.choice(pal) for _ in range(d2)] for _ in range(h)] for _ in range(ns * nc)])
            g = (v / 1000.).astype(np.float32 if R.random() < .5 else np.float64)
            g = g[0] if form == "2d" else g.reshape(ns, nc, h, d2)
            keep = g.copy()
            x = torch.tensor(g) if form == "tensor" else g
            s = np.asarray(ph.get_spatial_entropy(x, window_size=w))
            t.ev("spatial", w=w, grids=v.tolist(), shape=list(s.shape) == list(g.shape), got=qa(s.reshape(ns * nc, h, d2), BITS) if s.size == v.size else [],
                 pure=bool((keep == np.asarray(x)).all()))
    out.guard("entropy-%d" % n, go)


def neighbours(n):
    R = rng("c19c", n)

    def go(t):
        pal = palette(R)[:R.choice([1, 2, 3, 9])]
        # levels that do not depend on rounding
        pal = sorted({0, 1000} | {p for p in pal if p in (0, 1000) or (255 * p) % 1000}) if len(pal) > 1 else pal
        h, w = R.choice([(1, 4), (3, 3), (4, 6), (5, 5)])
        v = np.array([[R.choice(pal) for _ in range(w)] for _ in range(h)])
        if len(pal) > 1:
            v.flat[0], v.flat[-1] = 0, 1000
        for i, dname in enumerate(["top", "right", "bottom", "left"]):
            if i == n % 4 or THOROUGH:
                t.ev("cond", grid=v.tolist(), dir=dname, got=int(qa(analyze.get_conditional_grid_entropy(v / 1000., direction=i), BITS)))
        if n % 4 == 0:
            t.ev("multicond", grid=v.tolist(), got=int(qa(analyze.get_multiconditional_grid_entropy(v / 1000.), BITS)))
    out.guard("neighbours-%d" % n, go)


def multiverse(n):
    R = rng("c19m", n)
    repo = os.environ["VERIF_REPO_COPY"]
    root = os.path.join(os.environ["VERIF_SCRATCH"], "multi-%d" % n)
    slash = R.choice(["", "/"])
    files = R.sample(["orbium.npy", "geminium.npy", "conway_life.npy", "hedgehog.npy", "s613.npy"], R.choice([1, 2, 3]))
    limit, cppn = R.choice([1, 3]), R.choice([0, 1])

    def go(t):
        os.makedirs(os.path.join(root, "universes"))
        if R.random() < .5:
            os.makedirs(os.path.join(root, "ca_analysis"))
        for f in files:
            shutil.copy(os.path.join(repo, "ca_configs", f), os.path.join(root, "universes", f))
        open(os.path.join(root, "universes", "notes.txt"), "w").write("not a configuration")
        os.chdir(root)
        try:
            ph = Phanes(batch_size=2, dim=32, ca_steps=limit, use_cppn=cppn, input_directory="universes" + slash)
            runs, forward, analyse = [], ph.ca.forward, ph.analyze_universe

            def spy(grid, *a, **k):
                o = forward(grid, *a, **k)
                runs[-1].append((1.0 * grid, 1.0 * o))
                return o
            ph.ca.forward = spy
            ph.get_spatial_entropy = lambda g, window_size=63: np.zeros(tuple(g.shape))

            def one():
                runs.append([])
                res = analyse()
                runs[-1].append(res)
                return res
            ph.analyze_universe = one
            if n % 2:                       # once more: the earlier results are replaced
                ph.analyze_multiverse()
                del runs[:]
            seed_all(n)
            ph.analyze_multiverse()
            saved = []
            where = os.path.join(root, "ca_analysis")
            names = sorted(os.listdir(where))
            for f in names:
                r = np.load(os.path.join(where, f), allow_pickle=True).reshape(1)[0]
                mine = [x for x in runs if x[-1] is not None and x[-1].get("name") == r["name"]]
                same = len(mine) == 1 and list(r["mortality_ratio"]) == list(mine[0][-1]["mortality_ratio"]) and (r["last_step"] == mine[0][-1]["last_step"]).all() \
                    and list(r["fertility_ratio"]) == list(mine[0][-1]["fertility_ratio"])
                rule = False
                if len(mine) == 1 and len(mine[0]) > 1:
                    fresh = CCA()
                    fresh.restore_config(os.path.join(root, "universes", r["name"]))
                    fresh.no_grad()
                    rule = bool((fresh(mine[0][0][0]) - mine[0][0][1]).abs().max() < 1e-5)
                saved.append(dict(name=str(r["name"]), own=f.startswith(os.path.splitext(str(r["name"]))[0] + "cppn"), cppn=bool(r["use_cppn"]),
                                  limit=int(r["max_ca_steps"]), same=bool(same), rule=rule))
            strays = sorted(set(os.listdir(root)) - {"universes", "ca_analysis"}) + sorted(set(os.listdir(os.path.join(root, "universes"))) - set(files) - {"notes.txt"})
            t.ev("multi", files=files, saved=saved, cppn=bool(cppn), limit=limit, strays=strays)
        finally:
            os.chdir(os.environ["VERIF_SCRATCH"])
            shutil.rmtree(root, ignore_errors=True)
    out.guard("multiverse-%d" % n, go)


for n in range(60 if not THOROUGH else 500):
    universe(n)
for n in range(12 if not THOROUGH else 100):
    entropies(n)
for n in range(8 if not THOROUGH else 40):
    neighbours(n)
for n in range(6 if not THOROUGH else 30):
    multiverse(n)
out.write()
