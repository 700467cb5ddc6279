"""C09: every kernel the library builds, against its profile."""
from harness import *
import copy
from yuca import kernels as K

out = Out()
F = 16384
S = 1024


def up(v):
    return int(v) * (F // S)


def sig(R):
    return R.choice([64, 100, 154, 256, 512])


def rec(t, f, r, k, rs=64, edge=0, ek=0, flat=False, pure=True):
    a = k.detach().to(torch.float64).numpy() if isinstance(k, torch.Tensor) else np.asarray(k, dtype=np.float64)
    fine = np.array(qa(a, 1 << 26, 1 << 27)).ravel().tolist()
    t.ev("kernel", f=f, r=r, rs=rs, edge=edge, ek=ek, flat=flat, shape=list(a.shape), ks=np.array(qa(a, 1 << 16)).ravel().tolist(), fine=fine,
         ftol=60, sum=q1(a.sum(), 1 << 20, .6), abssum=q1(np.abs(a).sum(), 1 << 20, .6), pure=pure)


def profile(R, fam):
    """(TLA record, config name, kernel_kwargs)"""
    if fam == "gauss":
        mu, s = R.randint(0, S), sig(R)
        return dict(k="gauss", mode=0, mu=up(mu), sigma=up(s)), "Gaussian", dict(mu=mu / S, sigma=s / S)
    if fam == "mix":
        three = R.random() < .6
        t = [[R.randint(200, S) if three else S, R.randint(0, S), sig(R)] for _ in range(R.choice([1, 2, 3] if three else [1, 2]))]
        p = [v / S for a in t for v in (a if three else a[1:])]
        w = R.choice([list, np.array, torch.tensor])
        return dict(k="mix", mode=0, t=[[up(v) for v in a] for a in t]), "GaussianMixture", dict(parameters=w(p))
    if fam == "cos":
        mu, om = R.randint(0, S), R.choice([3 * S, 12 * S + 500, 25 * S])
        return dict(k="cosx2", mode=0, mu=up(mu), omega=up(om)), "CosOverX2", dict(mu=mu / S, omega=om / S)
    if fam == "dog":
        mu, s, dx = R.randint(0, S), sig(R), R.choice([64, 128, 256])
        return dict(k="dog", mode=0, mu=up(mu), sigma=up(s), dx=up(dx)), "DoGaussian", dict(mu=mu / S, sigma=s / S, dx=dx / S)
    if fam == "ring":
        a, b = R.choice([(1 / 3., 1.0), (.25, .75), (.5, 1.0), (0.0, .5), (.126, .876)])
        return dict(k="ring", mode=0, ri=int(a * F), ra=int(b * F)), "SmoothLifeKernel", dict(r_i=a, r_a=b)
    if fam == "log":
        s = R.choice([300, 512, 700])
        return dict(k="log", mode=0, sigma=up(s)), "LaplacianOfGaussian", dict(sigma=s / S)


def radius(R, fam):
    return R.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 13]) if fam != "ring" else R.choice([2, 4, 8, 3, 6])


def same(a, b):
    return a.keys() == b.keys() and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) if k != "kernel_kwargs" else same(a[k], b[k]) for k in a)


def config(i):
    R = rng("c09", i)
    fam = ["gauss", "mix", "cos", "dog", "ring", "log"][i % 6]

    def go(t):
        f, name, kw = profile(R, fam)
        for r in {radius(R, fam) for _ in range(2)}:
            if fam == "ring" and r in (3, 6) and f["ri"] != int(F / 3):
                continue
            cfg = dict(name=name, kernel_kwargs=copy.deepcopy(kw), radius=r)
            old = copy.deepcopy(cfg)
            k = K.get_kernel(cfg)
            rec(t, f, r, k, pure=same(cfg, old))
    out.guard("%s%d" % (fam, i), go)


def direct(i):
    R = rng("c09d", i)
    fam = ["gauss", "mix", "cos", "dog", "gedge", "dedge"][i % 6]

    def go(t):
        r = radius(R, fam)
        rs = R.choice([64, 64, 32, 48, 80])
        if fam in ("gauss", "mix", "cos"):
            f, _, kw = profile(R, fam)
            fn = dict(gauss=K.get_gaussian_kernel, mix=K.get_gaussian_mixture_kernel, cos=K.get_cosx2_kernel)[fam]
            rec(t, f, r, fn(radius=r, r_scale=rs / 64., **kw) if rs != 64 else fn(radius=r, **kw), rs=rs)
        elif fam == "dog":
            f, _, kw = profile(R, fam)
            kw.pop("dx")
            f["dx"] = round(.01 * F)     # fixed by the builder; too fine a difference for fixed-point values
            k = K.get_dogaussian_kernel(radius=r, **kw)
            rec(t, f, r, k)
        else:
            mode = R.randint(0, 1)
            r = min(r, 5)
            ek = R.choice([8, 16, 32, 64, 96, 128])
            small = R.random() < .3
            mu, s = R.randint(0, S), R.choice([100, 154, 256, 512])
            if fam == "gedge":
                f = dict(k="gauss", mode=0, mu=up(mu), sigma=up(s))
                fn = K.get_gaussian_edge_kernel
            else:
                f = dict(k="dog", mode=0, mu=up(mu), sigma=up(s), dx=round(.01 * F))
                fn = K.get_dogaussian_edge_kernel
            k = fn(radius=r, mu=mu / S, sigma=s / S, mode=mode) if small else fn(radius=r, mu=mu / S, sigma=s / S, mode=mode, dx=ek / 64.)
            rec(t, f, r, k, edge=1 if mode else 2, ek=ek, flat=small)
            if small:      # relations only: the shift is below the fixed-point resolution
                t.d["ev"][-1]["flat"] = True
                t.d["ev"][-1]["sum"] = t.d["ev"][-1]["sum"] - (1 << 20)
                t.d["ev"][-1]["ftol"] = 6000
    out.guard("fn_%s%d" % (fam, i), go)


def flats(i):
    """a profile with one value only: the kernel is all zero"""
    def go(t):
        for r in (1, 2, 5):
            rec(t, dict(k="mix", mode=0, t=[[8 * F, 8192, 16384]]), r,
                K.get_kernel(dict(name="GaussianMixture", kernel_kwargs=dict(parameters=[8.0, .5, 1.0]), radius=r)), flat=True)
    out.guard("flat%d" % i, go)


def plain():
    def go(t):
        for r in [1, 2, 3, 4, 5, 6, 7, 8, 13, 22, 31]:
            k = K.get_kernel(dict(name="MooreLike", radius=r))
            t.ev("moore", r=r, shape=list(k.shape), w=np.array(qa(k, 1 << 28, 1 << 28)).ravel().tolist())
        k = K.get_kernel(dict(name="InnerMoore"))
        t.ev("inner", shape=list(k.shape), w=np.array(q(k, 1)).ravel().tolist(),
             exact=bool(((k == 0) | (k == 1)).all()))
        k = K.get_laplacian_kernel()
        t.ev("nine", shape=list(k.shape), w=np.array(q(k, 4)).ravel().tolist())
        try:
            K.get_kernel(dict(name="NoSuchKernel", kernel_kwargs={}, radius=2))
            t.ev("unknown", refused=False)
        except Exception:
            t.ev("unknown", refused=True)
    out.guard("plain", go)


M = 6 if THOROUGH else 1
for i in range(150 * M):
    config(i)
for i in range(90 * M):
    direct(i)
flats(0)
plain()
torch.set_default_dtype(torch.float64)
for i in range(5000, 5000 + 30 * M):
    config(i)
    direct(i)
out.write()
