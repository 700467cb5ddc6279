"""C23: the named configurations and the patterns that live under them."""
import copy
from harness import *
from yuca.ca.continuous import CCA
from yuca.lenia import Lenia
import yuca.configs as C
import yuca.patterns as P

out = Out()
F = 16384
RULES = dict(orbium=C.get_orbium_config, geminium=C.get_geminium_config, smooth=C.get_smooth_life_config)
DEFAULT = dict(orbium=13, geminium=31, smooth=10)
REPO = os.environ["VERIF_REPO_COPY"]


def flat(v):
    if isinstance(v, dict):
        return {k: flat(v[k]) for k in v}
    return v.tolist() if hasattr(v, "tolist") else v


def build(R, name, r):
    """-> automaton, whether two requests give equal and independent configurations"""
    cfg = RULES[name](radius=r) if r != DEFAULT[name] or R.random() < .5 else RULES[name]()
    was = flat(copy.deepcopy(cfg))
    kw = dict(kernel_radius=R.randint(1, 9)) if R.random() < .5 else {}
    ca = (Lenia if name != "smooth" and R.random() < .3 else CCA)(**kw)
    ca.load_config(cfg)
    ca.no_grad()
    return ca, was == flat(cfg) == flat(RULES[name](radius=r))


def rule(i):
    R = rng("rule", i)
    name = list(RULES)[i % 3]
    if i < 6:
        r = DEFAULT[name] if i < 3 else R.choice([4, 5]) if name == "smooth" else R.randint(4, 6)
    else:
        r = R.choice([2, 4, 5, 7, 8] if i % 2 else [11, 13, 14, 17]) if name == "smooth" else R.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, 21])
    big = r > 8

    def go(t):
        ca, fresh = build(R, name, r)
        t.ev("set", r=int(ca.get_kernel_radius()), dt=q1(ca.get_dt(), F, 1.0), ch=[int(ca.external_channels), int(ca.internal_channels)], fresh=bool(fresh))
        n = 2 * r + 1
        x = torch.zeros(1, 1, n, n)
        x[0, 0, r, r] = 1.0
        k = ca.get_frame(x, mode=1)[1]
        k = torch.flip(k, (2, 3))          # the response of a correlation
        k64 = k.double()
        t.ev("kernel", f=0, r=r, rs=64, edge=0, ek=0, shape=list(k.shape), flat=False, ks=qa(k64.reshape(-1), 1 << 16),
             fine=qa(k64.reshape(-1), 1 << 26, lim=1 << 28), ftol=64, sum=q1(float(k64.sum()), 1 << 20, 1.0),
             abssum=q1(float(k64.abs().sum()), 1 << 20, 1.0), pure=True)
        H, W = (r + 1, r + 2) if big else (R.randint(6, 9), R.randint(6, 9))
        H, W = max(H, r), max(W, r)
        for s in range(2 if big else 4):
            g = torch.Generator().manual_seed(R.randrange(1 << 20))
            x = torch.rand(1, 1, H, W, generator=g)
            x = x * R.choice([.3, .5, .7, 1.0])       # densities on both sides of the growth bumps
            if s == 1:
                x = (x > .35).float() * x
            if s == 2:
                x = torch.full_like(x, R.uniform(.1, .5))
                x[0, 0, 1, 1] = R.random()
            new, nb = ca.get_frame(x, mode=1)[:2]
            y = ca(x)
            t.ev("step", g=qa(x[0, 0], F), nb=qa(nb[0, 0], F), out=qa(y[0, 0], F), tol=120 if name == "smooth" else 24)
    out.guard("%s_r%d_%d" % (name, r, i), go, head=dict(rule=name, r=r))


PATTERNS = dict(life=(P.get_glider, 0, 4, 10), orbium=(P.get_orbium, 20, 20, 6), geminium=(P.get_geminium, 20, 20, 3),
                smooth=(P.get_smooth_glider, 40, 10, 5))


def glide(name, i, turns, flip):
    R = rng("glide", name, i)

    def go(t):
        cwd = os.getcwd()
        os.chdir(REPO)               # one pattern is read relative to the repository
        try:
            get, warm, win, n = PATTERNS[name]
            p = get()
            if name == "life":
                ca = CCA()
                ca.load_config(C.get_life_like_config() if R.random() < .5 else C.get_life_like_config(birth=[3], survival=[2, 3]))
                ca.no_grad()
                N = R.randint(8, 24)
            else:
                ca, _ = build(R, name, DEFAULT[name])
                N = dict(orbium=R.randint(56, 80), geminium=R.randint(104, 120), smooth=R.randint(72, 96))[name]
            shape = np.array(p, dtype=float).shape
            p = np.array(p, dtype=float).reshape(shape[-2:])
            p = np.rot90(np.fliplr(p) if flip else p, turns)
            g = np.zeros((N, N))
            g[:p.shape[0], :p.shape[1]] = p
            g = np.roll(g, (R.randrange(N), R.randrange(N)), (0, 1))
            x = torch.tensor(g.tolist())[None, None]
            for s in range(warm):
                x = ca(x)
            ang = np.exp(2j * np.pi * np.arange(N) / N)
            for w in range(n + 1):
                a = np.array(x[0, 0].tolist())
                c = [float(np.angle((a.sum(1 - j) * ang).sum()) * N / 2 / np.pi) if a.sum() > .5 else 0.0 for j in (0, 1)]
                t.ev("seen", n=N, p=[round(256 * v) for v in c], m=q1(float(a.sum()), 16, 1.0))
                for s in range(win if w < n else 0):
                    x = ca(x)
        finally:
            os.chdir(cwd)
    out.guard("%s_%d%s_%d" % (name, turns, "f" if flip else "", i), go, head=dict(rule=name, turns=turns, flip=flip), seconds=600)


for i in range(120 if THOROUGH else 24):
    rule(i)
for i in range(4 if THOROUGH else 1):
    for turns in range(4):
        for flip in (0, 1):
            glide("life", i, turns, flip)
            glide("orbium", i, turns, flip)
            if THOROUGH or (turns + flip) % 3 == SEED % 3:
                glide("smooth", i, turns, flip)
            if THOROUGH or (turns, flip) in ((SEED % 4, 0), ((SEED + 2) % 4, 1)):
                glide("geminium", i, turns, flip)
out.write()
