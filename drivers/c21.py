"""C21 part 1: automata choosing their own time step."""
from harness import *
import rules
from yuca.code import CODE
from yuca.random_step_ca import RandomStepCA

out = Out()
F = 16384
GF = 4 * F


def growth(R):
    """(TLA record, config) of a smooth function, signed growth in [-1, 1]"""
    mode = R.choice([0, 1, 1])
    mu, s = R.randint(200, 800), R.choice([256, 384, 512])
    if R.random() < .6:
        return dict(k="gauss", mode=mode, mu=mu * 16, sigma=s * 16), dict(name="Gaussian", mu=mu / 1024, sigma=s / 1024, mode=mode)
    a = R.randint(-400, 700)
    b = R.randint(-300, 300)
    return dict(k="poly", mode=0, c=[a * 16, b * 16]), dict(name="Polynomial", coefficients=torch.tensor([a / 1024, b / 1024]), mode=0)


def case(i):
    R = rng("c21", i)
    kind = "code" if i % 3 else "random"
    E = [1, 1, 2, 4][(i // 3) % 4]
    SK = 8
    ks = []
    for _ in range(E):
        k = rules.rand_kernel(R, 3, 0, 3, .6)
        ks.append(k)
    SK = max(sum(map(sum, k)) for k in ks) + R.randint(0, 3)
    fs = [(growth(R), growth(R)) for _ in range(E)]
    thr = R.choice([.002, .005, .01, .02, .04, .1])
    hi = R.choice([.5, .5, .25, .4])
    lo = R.choice([.01, .05, .1])
    prev = R.choice([.3, .1, .05, hi / 2, .25])
    c = dict(kind=kind, E=E, SK=SK, taps=[rules.taps_of(k, 1) for k in ks], gen=[a[0] for a, _ in fs], per=[b[0] for _, b in fs],
             lo=round(lo * GF), hi=round(hi * GF), thr=round(thr * F), alive=round(.3 * F), prev=round(prev * GF))

    def go(t):
        torch.manual_seed(i); np.random.seed(i)
        kw = dict(internal_channels=E, external_channels=E, alive_threshold=.3, kernel_radius=1)
        if kind == "code":
            ca = CODE(prev_dt=prev, max_dt=hi, min_dt=lo, error_threshold=thr, **kw)
        else:
            ca = RandomStepCA(**kw)
            if R.random() < .5:
                ca.min_dt, ca.max_dt = lo, hi
            else:
                t.d["c"].update(lo=round(.05 * GF), hi=round(.25 * GF))
        dt = torch.get_default_dtype()
        nk = torch.tensor(ks, dtype=dt).reshape(E, 1, 3, 3) / SK
        ca.add_neighborhood_kernel(nk)
        ca.initialize_neighborhood_layer()
        ca.genesis_fns, ca.persistence_fns = [], []
        for a, b in fs:
            ca.add_genesis_fn(dict(a[1]))
            ca.add_persistence_fn(dict(b[1]))
        ca.no_grad()
        t.ev("new", t=q1(float(ca.t_count), GF))
        H, W = R.randint(3, 5), R.randint(3, 5)

        def grid():
            g = R.choice([.4, .25]) + .6 * torch.rand(1, E, H, W)
            if E == 4:
                dead = (torch.rand(1, 1, H, W) < .3)
                g[:, 3:4] = torch.where(dead, torch.zeros(1, 1, H, W), .62 + .3 * torch.rand(1, 1, H, W))
            elif R.random() < .3:
                g[:, :, 0, 0] = 0
            return g.clamp(0, 1)
        x = grid()
        for s in range(5):
            x0 = x.clone()
            y = ca(x)
            t.ev("step", g=qa(x[0], F), out=qa(y[0], F), pure=bool(torch.equal(x, x0)), t=int(round(float(ca.t_count) * GF)),
                 used=round(float(ca.dt) * GF), prev=round(float(ca.prev_dt) * GF), dt=round(float(ca.get_dt()) * GF))
            x = y if s % 2 == 0 and E < 4 else grid()
            if R.random() < .2:
                ca.reset()
                t.ev("reset", t=q1(float(ca.t_count), GF))
        if kind == "random":
            d = []
            for _ in range(40):
                ca(x)
                d.append(round(float(ca.get_dt()) * GF))
            t.ev("fresh", draws=d)
    out.guard("%s%d" % (kind, i), go, head=dict(c=c))


def tiny():
    """the previous step is already far below the minimum: the minimum is used"""
    c = dict(kind="code", E=1, SK=1, taps=[[[0, 1, 1]]], gen=[dict(k="gauss", mode=1, mu=8000, sigma=4000)],
             per=[dict(k="gauss", mode=1, mu=8000, sigma=4000)], lo=round(.1 * GF), hi=round(.5 * GF), thr=round(.05 * F), alive=0, prev=round(.01 * GF))

    def go(t):
        ca = CODE(prev_dt=.01, max_dt=.5, min_dt=.1, error_threshold=.05, kernel_radius=1)
        ca.add_neighborhood_kernel(torch.tensor([[0, 0, 0], [0, 0, 1.], [0, 0, 0]]))
        ca.initialize_neighborhood_layer()
        ca.genesis_fns, ca.persistence_fns = [], []
        for f in (ca.add_genesis_fn, ca.add_persistence_fn):
            f(dict(name="Gaussian", mu=8000 / F, sigma=4000 / F, mode=1))
        ca.no_grad()
        x = torch.rand(1, 1, 4, 4, generator=torch.Generator().manual_seed(3)) * .5 + .4
        y = ca(x)
        t.ev("step", g=qa(x[0], F), out=qa(y[0], F), pure=True, t=int(round(float(ca.t_count) * GF)),
             used=round(float(ca.dt) * GF), prev=round(float(ca.prev_dt) * GF), dt=round(float(ca.get_dt()) * GF))
    out.guard("tiny", go, head=dict(c=c))


tiny()
for i in range(900 if THOROUGH else 120):
    case(i)
out.write()
