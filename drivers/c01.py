"""C01: steps of real continuous CAs against the exact rule."""
from harness import *
import rules
from yuca.ca.continuous import CCA

out = Out()


def run_case(idx, R, rule, make, B, H, W, chain, half=False, flat=False):
    g = rule.grid(R, B, H, W)
    ts = [Trace("%s.%d" % (idx, b), rule=rule.tla) for b in range(B)]
    try:
        with quiet(), limit(120):
            ca = rule.install(make(), flat=flat)
            dt = torch.float16 if half else torch.get_default_dtype()
            x = (torch.tensor(g, dtype=torch.float64) / rule.SX).to(dt)
            for b, t in enumerate(ts):
                t.ev("put", g=g[b])
            if R.random() < 0.5 and not half:
                x0 = x.clone()
                mode = R.choice([0, 1, 2, 3, 4])
                res = ca.get_frame(x, mode=mode)
                new = res if mode == 0 else res[0]
                nb = {1: 1, 3: 1, 4: 2}.get(mode)
                up = {2: 1, 3: 2, 4: 3}.get(mode)
                pure = bool(torch.equal(x, x0))
                for b, t in enumerate(ts):
                    kw = {}
                    if nb is not None:
                        kw["nb"] = q(res[nb][b], rule.SX * rule.SK)
                    if up is not None:
                        kw["up"] = q(res[up][b], rule.up_scale)
                    t.ev("frame", out=q(new[b], rule.out_scale), pure=pure, chain=False, **kw)
            for s in range(chain if rule.out_scale == rule.SX else 1):
                x0 = x.clone()
                y = ca(x)
                pure = bool(torch.equal(x, x0)) and y.dtype == x.dtype
                for b, t in enumerate(ts):
                    t.ev("step", out=q(y[b], rule.out_scale), pure=pure,
                         chain=rule.out_scale == rule.SX)
                x = y
    except (Exception, Hang) as exc:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        for t in ts:
            t.fail("step", exc)
    for t in ts:
        out.add(t)


N = 900 if THOROUGH else 190
for i in range(N):
    R = rng("c01", i)
    rule = rules.random_rule(R, i)
    flat = rule.E == rule.I == 1 and i % 4 == 0
    B = R.choice([1, 1, 2, 3])
    # every third case runs with scrambled global generators: nothing may depend on them
    torch.manual_seed(i); np.random.seed(i)
    run_case("r%d" % i, R, rule, lambda: CCA(**rule.kwargs()), B, R.randint(3, 6), R.randint(3, 6), 1, flat=flat)

# closed rules: multi-step histories on the same scale
for i in range(160 if THOROUGH else 40):
    R = rng("c01h", i)
    rule = rules.Rule(R, fams=["spike", "intervals", "double", "dog"], pad=R.choice(["circular", "circular", "reflect", "zeros"]),
                      SX=R.choice([2, 4, 8]), SK=R.choice([1, 2, 4]), dt=(1, 1), kd=R.choice([3, 5]))
    run_case("h%d" % i, R, rule, lambda: CCA(**rule.kwargs()), R.choice([1, 2]), R.randint(3, 7), R.randint(3, 7), 6)

# an empty or a full universe is stepped like any other: something may be born of nothing
for i in range(40 if THOROUGH else 10):
    R = rng("c01u", i)
    E, I = R.choice([(1, 1), (1, 2), (2, 2)])
    while True:
        rule = rules.Rule(R, E=E, I=I, fams=["poly", "relu", "identity"], dt=(1, 2))
        if i % 2 or any(f["k"] == "poly" and f["c"][0] > 0 and f["mode"] == 0 for f in rule.tla["gen"]):
            break
    v = [0, rule.SX, 0, 1][i % 4]
    rule.grid = lambda R, B, H, W, E=E, v=v: [[[[v] * W for _ in range(H)] for _ in range(E)] for _ in range(B)]
    run_case("u%d" % i, R, rule, lambda: CCA(**rule.kwargs()), R.choice([1, 2]), R.randint(3, 5), R.randint(3, 5), 1)

# half precision universes on a CPU automaton
for i in range(60 if THOROUGH else 14):
    R = rng("c01f16", i)
    E, I = R.choice([(1, 1), (1, 2), (2, 2), (4, 4)])
    rule = rules.Rule(R, E=E, I=I, fams=["spike", "intervals", "double"], SX=4, SK=4, dt=R.choice([(1, 1), (1, 2), (1, 4)]),
                      thr=R.choice([0, 1, 2]) if E >= 4 else None)
    if rule.out_scale <= 512:
        run_case("f%d" % i, R, rule, lambda: CCA(**rule.kwargs()), 1, R.randint(3, 5), R.randint(3, 5), 1, half=True)

# double precision library-wide
torch.set_default_dtype(torch.float64)
for i in range(60 if THOROUGH else 14):
    R = rng("c01f64", i)
    rule = rules.random_rule(R, i)
    run_case("d%d" % i, R, rule, lambda: CCA(**rule.kwargs()), 1, R.randint(3, 5), R.randint(3, 5), 1)
torch.set_default_dtype(torch.float32)
out.write()
