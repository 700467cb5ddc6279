"""C07: Gray-Scott automaton; exact dyadic histories, default-like approximate steps,
stencils and equilibria."""
import math
from harness import *
from yuca.ca.reaction_diffusion import RxnDfn
from yuca.kernels import get_kernel, get_laplacian_kernel

out = Out()
F = 16384


def stencil(R):
    n = R.choice([3, 3, 5])
    w = [[R.choice([0, 0, 1, 2, 3]) for _ in range(n)] for _ in range(n)]
    w[n // 2][n // 2] = 0
    w[n // 2][n // 2] = -sum(map(sum, w))
    return w


def report(ca):
    return dict(du=q1(ca.get_diffusion_u(), 64), dv=q1(ca.get_diffusion_v(), 64), f=q1(float(ca.f), 64), k=q1(float(ca.k), 64),
                dt=q1(ca.get_dt(), 64), m=q1(-math.log2(float(ca.get_dx())), 1))


def tensor(R, v):
    # both scalar and one-element forms are accepted
    return R.choice([lambda: v, lambda: torch.tensor(v), lambda: torch.tensor([v])])()


def exact(i):
    R = rng("exact", i)
    p = [R.randint(0, 12) for _ in range(4)]
    c = dict(du=p[0], dv=p[1], f=p[2], k=p[3], dt=R.choice([8, 16, 32, 64]), m=R.randint(0, 2), w=stencil(R))

    def go(t):
        ca = RxnDfn()
        ca.set_params(np.array(p) / 64.0)
        ca.set_dt(tensor(R, c["dt"] / 64.0))
        ca.set_dx(tensor(R, 2.0 ** -c["m"]))
        H, W, B = R.randint(5, 7), R.randint(5, 7), R.choice([1, 1, 2, 3, 4])

        def kernel(w):
            ca.add_neighborhood_kernel(torch.tensor(w).reshape(1, 1, len(w), len(w)) / 4.0)
            ca.initialize_neighborhood_layer()
        kernel(c["w"])
        t.ev("init", got=report(ca))
        for s in range(6):
            g = [[[[R.choice([0, 16, R.randint(0, 16)]) for _ in range(W)] for _ in range(H)] for _ in range(2)] for _ in range(B)]
            x = torch.tensor(g) / 16.0
            x0 = x.clone()
            y = ca(x)
            b = R.randrange(B) if s % 2 else B - 1
            t.ev("step", g=g[b], out=q(y[b], 1 << 18), pure=bool(torch.equal(x, x0)), t=q1(float(ca.t_count), 64))
            a = R.choice(["set_du", "set_dv", "set_dx", "set_dt", "set_params", "set_kernel", "reset", "get_params", "none"])
            if a == "set_kernel":
                w = stencil(R)
                kernel(w)
                t.ev(a, w=w, got=report(ca))
            elif a == "set_params":
                v = [R.randint(0, 12) for _ in range(4)]
                if R.random() < .2:
                    v[R.randint(2, 3)] *= -1
                ca.set_params(np.array(v) / 64.0)
                t.ev(a, v=v, got=report(ca))
            elif a == "reset":
                ca.reset()
                t.ev(a, t=q1(float(ca.t_count), 64))
            elif a == "get_params":
                t.ev(a, v=q(ca.get_params(), 64))
            elif a != "none":
                v = R.randint(0, 2) if a == "set_dx" else R.choice([8, 16, 32, 64]) if a == "set_dt" else R.randint(0, 12)
                f = dict(set_du=ca.set_diffusion_u, set_dv=ca.set_diffusion_v, set_dx=ca.set_dx, set_dt=ca.set_dt)[a]
                f(tensor(R, 2.0 ** -v if a == "set_dx" else v / 64.0))
                t.ev(a, v=v, got=report(ca))
        # one species disturbed, feed = 0 and the other species absent: no cross-talk
        ca.set_params(np.array([0.125, 0.25, 0.0, 0.25]))
        for s in range(2):
            x = torch.zeros(1, 2, H, W)
            x[0, s, 2, 2] = .5
            t.ev("impulse", s=s, d=q(ca(x)[0, 1 - s], 1 << 18))
    out.guard("exact%d" % i, go, head=dict(c=c))


def approx(i):
    """the real stencil and Gray-Scott-like constants"""
    R = rng("approx", i)

    def go(t):
        ca = RxnDfn()
        f, k = R.uniform(.01, .1), R.uniform(.03, .07)
        if i == 0:
            f, k = .062, .0609
        du, dv = R.uniform(.1, .8), R.uniform(.1, .8)     # D/dx^2
        dx = R.choice([1 / 330., .01, .02])
        ca.set_params(np.array([du * dx * dx, dv * dx * dx, f, k]))
        ca.set_dx(dx)
        ca.set_dt(R.choice([.25, .5, 1.0]))
        sig, rad = R.choice([.3, .5, .7]), R.randint(1, 3)
        ca.set_kernel_config(dict(name="LaplacianOfGaussian", kernel_kwargs=dict(sigma=sig), radius=rad)) if i else None
        w = ca.neighborhood_layer.weight
        t.d["c"] = dict(du=round(du * F), dv=round(dv * F), f=round(f * F), k=round(k * F), dt=round(ca.get_dt() * F), m=0,
                        w=qa(w[0, 0], 4 * F))
        t.ev("stencil", shape=list(w.shape), n=int(w.shape[-1]), w=qa(w[:, 0], 1 << 20))
        x = torch.rand(1, 2, 8, 8, generator=torch.Generator().manual_seed(R.randrange(1 << 20)))
        for s in range(4):
            x0 = x.clone()
            y = ca(x)
            t.ev("astep", g=qa(x[0], F), out=qa(y[0], F), tol=24, pure=bool(torch.equal(x, x0)))
            x = y
    out.guard("approx%d" % i, go)


def equilibrium(i):
    R = rng("eq", i)

    def go(t):
        ca = RxnDfn()
        while True:      # rates for which the non-trivial equilibrium exists with a margin
            f, k = R.uniform(.005, .12), R.uniform(.01, .07)
            if f > 4 * (f + k) ** 2 * (1.05 if i % 3 else 1.005):
                break
        if i:
            ca.set_params(np.array([2e-5, 1e-5, f, k]))
        else:
            f, k = .062, .0609
        t.d["c"] = dict(du=0, dv=0, f=round(f * F), k=round(k * F), dt=0, m=0, w=[])
        b, h, wd = R.randint(1, 3), R.randint(8, 12), R.randint(8, 12)
        if i % 2:
            g = ca.initialize_grid(batch_size=b, dim=[h, wd])
        else:
            g = ca.initialize_grid(batch_size=b, dim=h)
            wd = h
        y = ca(g)
        t.ev("grid", b=b, h=h, wd=wd, shape=list(g.shape), u=q1(float(g[0, 0, 0, 0]), F, 1.0), v=q1(float(g[0, 1, 0, 0]), F, 1.0),
             spread=q1(float((g - g[:1, :, :1, :1]).abs().max()), 1 << 20, 1.0), drift=q1(float((y - g).abs().max()), 1 << 20, 1.0))
    out.guard("eq%d" % i, go)


def loaded(i):
    """constants given by a configuration"""
    R = rng("load", i)
    p = [R.randint(0, 12) for _ in range(4)]
    c = dict(du=p[0], dv=p[1], f=p[2], k=p[3], dt=R.choice([8, 16, 32]), m=R.randint(0, 2), w=[[0]])

    def go(t):
        ca = RxnDfn()
        cfg = dict(neighborhood_kernel_config=dict(name="LaplacianOfGaussian", kernel_kwargs=dict(sigma=.5), radius=1),
                   dt=c["dt"] / 64.0, dx=2.0 ** -c["m"], feed_rate=p[2] / 64.0, decay_rate=p[3] / 64.0,
                   diffusion_u=p[0] / 64.0, diffusion_v=p[1] / 64.0, params=np.array(p) / 64.0)
        ca.load_config(cfg)
        t.ev("load", c=c, got=report(ca))
        t.ev("get_params", v=q(ca.get_params(), 64))
    out.guard("load%d" % i, go, head=dict(c=c))


M = 8 if THOROUGH else 1
for i in range(60 * M):
    exact(i)
for i in range(12 * M):
    approx(i)
for i in range(25 * M):
    equilibrium(i)
for i in range(10 * M):
    loaded(i)
out.write()
