"""C08: the neural automaton's step against W3 act(W2 act(W1 [id; n]))."""
from harness import *
import rules
from yuca.ca.neural import NCA

out = Out()
F = 16384
ACTS = ["Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity", "NoSuchActivation"]
LAYOUTS = [(1, 1), (2, 2), (1, 2), (1, 3), (2, 1), (2, 4), (4, 4), (3, 3), (4, 1), (4, 8)]


def taps(R, E, I, kd, lo, hi):
    G = E if I % E == 0 else 1
    k = [[rules.rand_kernel(R, kd, lo, hi, .5) for _ in range(E // G)] for _ in range(I)]
    return k, [[rules.taps_of(p, 1) for p in ps] for ps in k]


def case(i):
    R = rng("c08", i)
    name = ACTS[i % len(ACTS)]
    act = "Gaussian" if name == "NoSuchActivation" else name
    E, I = LAYOUTS[(i // 2) % len(LAYOUTS)]
    Hd = R.randint(1, 4) if E * I < 16 else 2
    pad = R.choice(["circular", "circular", "reflect", "zeros"])
    G = E if I % E == 0 else 1
    moore = R.random() < .5
    thr = R.choice([0, 2, 6]) if E >= 4 else 0
    na = 2 if act == "Gaussian" else 0
    peaks = R.choice([1, 2, 3])
    NK = 0 if moore else 3 * peaks
    unit = [[[[0, 0, 1]] for _ in range(E // G)] for _ in range(I)]
    mr = R.randint(1, 2)
    nmoore = (2 * mr + 1) ** 2 - 1
    mtaps = [[[[a, b, 1] for a in range(-mr, mr + 1) for b in range(-mr, mr + 1) if a or b] for _ in range(E // G)] for _ in range(I)]
    head = dict(E=E, I=I, Hd=Hd, act=act, pad=pad, thr=thr, SI=1, idk=unit, NK=NK, dt=0, kern=dict(nbk=mtaps, SK=nmoore))

    def vector():
        def w(n, k):
            return [R.randint(-16, 16) if R.random() < .85 else 0 for _ in range(n * k)]

        def ap():
            return [R.randint(-8, 16), R.choice([6, 8, 12, 16])] if na else []
        big = 3 if act in ("Tanh", "Sigmoid", "Gaussian") else 1
        kp = [x for _ in range(peaks) for x in (16, R.choice([4, 8, 12]), R.choice([2, 4, 8]))] if NK else []
        return [x * big for x in w(Hd, 2 * I)] + ap() + w(Hd, Hd) + ap() + w(E, Hd) + kp

    def go(t):
        np.random.seed(i); torch.manual_seed(i)
        d = dict(hidden_channels=Hd, internal_channels=I, external_channels=E, activation=name, conv_mode=pad,
                 alive_threshold=thr / 16.0, dropout_rate=R.choice([0.0, .1, .5]), kernel_radius=R.randint(1, 3),
                 kernel_peaks=peaks)
        ca = NCA(**d)
        ca.eval()
        if moore:
            ca.set_kernel_config(dict(name="MooreLike", kernel_kwargs={}, radius=mr))
        t.d["dt"] = q1(ca.get_dt(), 64, 1.0)
        dtn = R.choice([8, 16, 32, 64])
        ca.set_dt(dtn / 64.0)
        t.ev("dt", v=dtn, got=q1(ca.get_dt(), 64))

        def write():
            v = vector()
            ca.set_params(np.array(v) / 16.0)
            t.ev("weights", v=v, got=q(ca.get_params(), 16))
            if not moore:
                install()

        def install():
            SK = R.choice([4, 8, 16])
            k, tp = taps(R, E, I, R.choice([3, 3, 5]), -2, 3)
            ca.add_neighborhood_kernel(torch.tensor(k, dtype=torch.float32) / SK)
            ca.initialize_neighborhood_layer()
            t.ev("kernel", kern=dict(nbk=tp, SK=SK))
            return k, SK
        write()
        B, H, W = R.randint(1, 2), R.randint(5, 6), R.randint(5, 6)

        def step(k="step"):
            g = [[[[R.choice([0, 16, R.randint(0, 16)]) for _ in range(W)] for _ in range(H)] for _ in range(E)] for _ in range(B)]
            x = torch.tensor(g) / 16.0
            x0 = x.clone()
            if k == "frame":
                m = R.randint(0, 4)
                y = ca.get_frame(x, mode=m)
                y = y if m == 0 else y[0]
            else:
                y = ca(x)
            b = R.randrange(B)
            t.ev(k, g=g[b], out=qa(y[b], F), tol=24, pure=bool(torch.equal(x, x0)), t=q1(float(ca.t_count), 64, .1))
        step()
        for s in range(3):
            a = R.choice(["read", "freeze", "unfreeze", "save", "weights", "restore" if moore else "kernel", "dt", "eval"])
            if a == "read":
                t.ev(a, v=q(ca.get_params(), 16))
            elif a == "freeze":
                ca.no_grad()
                t.ev(a, v=q(ca.get_params(), 16))
            elif a == "unfreeze":
                ca.yes_grad()
                t.ev(a, v=q(ca.get_params(), 16))
            elif a == "save":
                ca.save_config("c08_%d.npy" % i)
                t.ev(a, v=q(ca.get_params(), 16))
            elif a == "eval":
                ca.train()
                ca.eval()
                t.ev(a, v=q(ca.get_params(), 16))
            elif a == "weights":
                write()
            elif a == "kernel":
                install()
            elif a == "dt":
                dtn = R.choice([8, 16, 32, 64])
                ca.set_dt(dtn / 64.0)
                t.ev(a, v=dtn, got=q1(ca.get_dt(), 64))
            elif a == "restore" and thr == 0:
                ca.save_config("c08_%d.npy" % i)
                ca = NCA()
                ca.restore_config("c08_%d.npy" % i)
                ca.eval()
                t.ev(a, v=q(ca.get_params(), 16), dt=q1(ca.get_dt(), 64))
            with torch.no_grad():
                step(R.choice(["step", "step", "frame"]))
        t.ev("read", v=q(ca.get_params(), 16))
    out.guard("n%d" % i, go, head=head)


for i in range(1500 if THOROUGH else 160):
    case(i)
out.write()
