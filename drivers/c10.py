"""C10: growth functions against their formulas."""
from harness import *
from yuca import activations as A

out = Out()
F = 16384
S = 1024            # inputs are multiples of 1/1024, exact in float32 and over F


def points(R, n, centres, lo=-1.25, hi=2.0):
    xs = []
    for _ in range(n):
        u = R.random()
        if u < .4 and centres:
            xs.append(R.choice(centres) + R.randint(-250, 250))
        elif u < .5 and centres:
            xs.append(R.choice(centres))
        elif u < .8:
            xs.append(R.randint(0, S))
        else:
            xs.append(R.randint(int(lo * S), int(hi * S)))
    return [max(int(lo * S), min(int(hi * S), x)) for x in xs]


def shapes(R):
    return R.choice([(12,), (1, 12), (2, 1, 3, 2), (1, 1, 5, 5), (3, 2, 2, 2), (1, 24), (4, 1, 1, 1)])


def run(id, R, f, make, centres, fx=None, tol=12, forms=("f32", "f64", "np"), n=4, lo=-1.25, hi=2.0):
    """f the TLA record, make() the real function"""
    def go(t):
        fn = make()
        t.d["f"] = f
        for s in range(n):
            sh = shapes(R)
            m = int(np.prod(sh))
            xs = points(R, m, centres, lo, hi)
            form = R.choice([k for k in forms if k != "f32" or torch.get_default_dtype() == torch.float32])
            a = np.array(xs, dtype=np.float64).reshape(sh) / S
            x = a if form in ("np",) else torch.tensor(a, dtype=torch.float64 if form == "f64" else torch.float32)
            if form == "fn32":
                x = a.astype(np.float32)
            x0 = x.copy() if isinstance(x, np.ndarray) else x.clone()
            y = fn(x)
            same = bool(np.array_equal(x, x0)) if isinstance(x, np.ndarray) else bool(torch.equal(x, x0))
            tens = isinstance(x, torch.Tensor)
            t.ev("eval", xs=[v * (F // S) for v in xs], ys=np.array(qa(y, F)).ravel().tolist(), tol=tol,
                 shape=list(sh), got=list(y.shape), dtype=(y.dtype == x.dtype) if tens else True,
                 device=(y.device == x.device) if tens else True, pure=same)
    out.guard(id, go, head=dict(f=dict(k="none", mode=0)))


def lv(R, lo=0, hi=S):
    return R.randint(lo, hi)


def sig(R):
    return R.choice([8, 16, 32, 64, 100, 154, 256, 512, 700])


def up(v):
    return v * (F // S)


def form(R, v):
    """a parameter as a float, a 0-d or a one-element tensor"""
    return R.choice([v / S, torch.tensor(v / S), torch.tensor([v / S])])


def case(i):
    R = rng("c10", i)
    fam = ["gauss", "mix3", "mix2", "double", "dog", "steps", "poly", "cosx2", "identity", "ring", "log", "meta", "smooth"][i % 13]
    mode = R.randint(0, 1)
    id = "%s%d" % (fam, i)
    if fam == "gauss":
        mu, s = lv(R, -200), sig(R) * R.choice([1, 1, 1, -1])
        run(id, R, dict(k="gauss", mode=mode, mu=up(mu), sigma=up(s)), lambda: A.Gaussian(mu=form(R, mu), sigma=form(R, s), mode=mode), [mu, mu + s, mu - s])
    elif fam in ("mix3", "mix2"):
        three = fam == "mix3"
        k = R.choice([1, 2, 3, 4, 6, 9]) if three else R.choice([1, 2, 4, 5, 8])
        t = [[R.randint(-S // 2, 2 * S) if three else S, lv(R), sig(R)] for _ in range(k)]
        if three and R.random() < .3:        # one peak above 1, brought down again by another
            mu, s = lv(R), sig(R)
            t = [[2 * S, mu, s], [-S, mu + R.randint(-20, 20), s]] + t[:1]
        p = [v / S for a in t for v in (a if three else a[1:])]
        w = R.choice([list, np.array, torch.tensor])
        run(id, R, dict(k="mix", mode=mode, t=[[up(v) for v in a] for a in t]), lambda: A.GaussianMixture(parameters=w(p), mode=mode), [a[1] for a in t], tol=24)
    elif fam == "double":
        m, s = [lv(R), lv(R)], [sig(R), sig(R)]
        one = R.random() < .2
        if one:
            m, s = [m[0]] * 2, [s[0]] * 2
        mk = lambda v: torch.tensor([x / S for x in (v[:1] if one else v)])
        run(id, R, dict(k="mix", mode=mode, t=[[F, up(m[0]), up(s[0])], [F, up(m[1]), up(s[1])]]),
            lambda: A.DoubleGaussian(mu=mk(m), sigma=mk(s), mode=mode), m, tol=24)
    elif fam == "dog":
        mu, s, dx = lv(R), sig(R), R.choice([8, 16, 64, 128])
        run(id, R, dict(k="dog", mode=mode, mu=up(mu), sigma=up(s), dx=up(dx)),
            lambda: A.DoGaussian(mu=form(R, mu), sigma=form(R, s), dx=dx / S, mode=mode), [mu - dx, mu + dx, mu], tol=24)
    elif fam in ("steps", "smooth"):
        t = []
        for _ in range(R.randint(1, 3)):
            a = lv(R)
            t.append([a, a + R.choice([0, R.randint(1, 16), R.randint(16, 400), R.randint(16, 400), R.randint(16, 400)])])
        an, ad = R.choice([(1, 80), (1, 16), (1, 4), (1, 50), (3, 20)])
        pts = [v for a in t for v in a]
        fm = [[v / S for v in a] for a in t]
        if fam == "steps":
            w = R.choice([list, np.array, torch.tensor])
            kw = {} if (an, ad) == (1, 80) and R.random() < .5 else dict(alpha=an / ad)
            run(id, R, dict(k="steps", mode=mode, t=[[up(v) for v in a] for a in t], an=an, ad=ad),
                lambda: A.SmoothIntervals(parameters=w(fm), mode=mode, **kw), pts, tol=24)
        else:
            kw = {} if (an, ad) == (1, 80) else dict(alpha=an / ad)
            run(id, R, dict(k="steps", mode=0, t=[[up(v) for v in a] for a in t], an=an, ad=ad),
                lambda: A.get_smooth_steps_fn(fm, **kw), pts, tol=24, forms=("np",))
    elif fam == "poly":
        c = [R.randint(-S, S) for _ in range(R.choice([1, 2, 3, 4, 5, 8, 11]))]
        w = R.choice([list, torch.tensor])
        run(id, R, dict(k="poly", mode=mode, c=[up(v) for v in c]), lambda: A.Polynomial(coefficients=w([v / S for v in c]), mode=mode), [0, S], **(dict(tol=40) if len(c) < 6 else dict(tol=60, lo=-1.0, hi=1.125)))
    elif fam == "cosx2":
        mu, om = lv(R, -200), R.choice([0, S, 3 * S, 12 * S + 500, 25 * S])
        run(id, R, dict(k="cosx2", mode=mode, mu=up(mu), omega=up(om)), lambda: A.CosOverX2(mu=R.choice([mu / S, torch.tensor(mu / S)]), omega=R.choice([om / S, torch.tensor(om / S)]), mode=mode), [mu], tol=30)
    elif fam == "identity":
        run(id, R, dict(k="identity", mode=0), lambda: A.Identity(), [], tol=0)
    elif fam == "ring":
        ri, ra = lv(R, 0, S // 2), lv(R, S // 2, S)
        run(id, R, dict(k="ring", mode=0, ri=up(ri), ra=up(ra)), lambda: A.SmoothLifeKernel(r_a=ra / S, r_i=ri / S), [ri, ra, ri - 1, ri + 1, ra - 1, ra + 1], tol=0, forms=("np",))
    elif fam == "log":
        def go(t):
            s = R.choice([300, 512, 700, 1024, 1500])
            fn = A.LaplacianOfGaussian(sigma=s / S) if s != 512 else A.LaplacianOfGaussian()
            for _ in range(3):
                n = R.choice([3, 5])
                a = np.array([R.randint(0, 3 * s // 2) for _ in range(n * n)], dtype=np.float64)
                a[0] = 0
                x = a.reshape(1, 1, n, n) / S
                x = R.choice([x, torch.tensor(x), torch.tensor(x, dtype=torch.float32)])
                x0 = x.copy() if isinstance(x, np.ndarray) else x.clone()
                y = fn(x)
                t.ev("log", sigma=up(s), xs=[up(int(v)) for v in a], ys=np.array(qa(y, F)).ravel().tolist(), tol=12, shape=[1, 1, n, n], got=list(y.shape),
                     pure=bool((np.asarray(x) == np.asarray(x0)).all()))
        out.guard(id, go)
    else:
        def go(t):
            fn = A.GaussianMetaMixture(mode=mode)
            for _ in range(3):
                b, h, w = R.randint(1, 2), R.randint(2, 3), R.randint(2, 4)
                tr = [[lv(R), lv(R), sig(R)] for _ in range(b * h * w)]
                x = torch.tensor(tr, dtype=torch.float32).reshape(b, h, w, 3).permute(0, 3, 1, 2) / S
                y = fn(x)
                t.ev("meta", mode=mode, xs=[[up(v) for v in a] for a in tr], ys=np.array(qa(y, F)).ravel().tolist(), tol=12,
                     shape=[b, 1, h, w], got=list(y.shape))
        out.guard(id, go)


for i in range(13 * (200 if THOROUGH else 26)):
    case(i)


# what the constructors mean when nothing is given
def defaults(j):
    R = rng("c10d", j)
    mode = j % 2
    dec = lambda v: round(v * F)
    k = j // 2
    if k == 0:
        run("dgauss%d" % j, R, dict(k="gauss", mode=mode, mu=0, sigma=dec(.1)), lambda: A.Gaussian(mode=mode), [0])
    elif k == 1:
        run("dmix%d" % j, R, dict(k="mix", mode=mode, t=[[F, dec(.5), dec(.15)]]), lambda: A.GaussianMixture(mode=mode), [S // 2])
    elif k == 2:
        run("dsteps%d" % j, R, dict(k="steps", mode=mode, t=[[dec(.185), dec(.375)]], an=1, ad=80), lambda: A.SmoothIntervals(mode=mode), [189, 384], tol=260)
    elif k == 3:
        run("dpoly%d" % j, R, dict(k="poly", mode=mode, c=[dec(.1)] * 3), lambda: A.Polynomial(mode=mode), [0], tol=30)
    elif k == 4:
        run("dcos%d" % j, R, dict(k="cosx2", mode=mode, mu=0, omega=dec(25.12)), lambda: A.CosOverX2(mode=mode), [0], tol=30)
    elif k == 5:
        run("dring%d" % j, R, dict(k="ring", mode=0, ri=dec(1 / 3), ra=F), lambda: A.SmoothLifeKernel(), [0, S, S // 3, S // 3 + 1], tol=0, forms=("np",))
    elif k == 6:
        run("ddog%d" % j, R, dict(k="dog", mode=mode, mu=0, sigma=dec(.1), dx=dec(.01)), lambda: A.DoGaussian(mode=mode), [0], tol=40)


for j in range(14):
    defaults(j)

# double precision library-wide
torch.set_default_dtype(torch.float64)
for i in range(1000, 1000 + 13 * (40 if THOROUGH else 6)):
    case(i)
out.write()
