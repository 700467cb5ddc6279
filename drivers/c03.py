"""C03: the common CA laws on every automaton class."""
from harness import *
from yuca.ca.continuous import CCA
from yuca.ca.neural import NCA
from yuca.ca.reaction_diffusion import RxnDfn
from yuca.lenia import Lenia
from yuca.code import CODE
from yuca.random_step_ca import RandomStepCA
from yuca.metaca import MetaCA
from yuca.configs import get_orbium_config, get_geminium_config, get_smooth_life_config, get_life_like_config

out = Out()
ONE = 65536


def history(id, make, R, clock="set", laws=True, before=None, frames=True, half=False, H=9, W=10, B=2, steps=3, prep=None, tol=8):
    def go(t):
        torch.manual_seed(R.randrange(1 << 20)); np.random.seed(R.randrange(1 << 20))
        ca = make()
        if prep:
            prep(ca)
        C = ca.external_channels
        tick = (lambda: q1(float(ca.t_count), ONE, 1.0)) if clock != "none" else (lambda: 0)
        if clock != "none":
            t.ev("new", t=tick())

        def setdt(v):
            ca.set_dt(torch.tensor(v) if R.random() < .3 else v)
            t.ev("dt", v=int(v * ONE), got=q1(ca.get_dt(), ONE), t=tick())
        if clock == "set":
            setdt(R.choice([.25, .125, .5, 1.0]))

        def step(k, x, **kw):
            x0 = x.clone()
            if before:
                before(t, ca, tick)
            y = ca(x)
            used = q1(float(getattr(ca, "prev_dt", 0.0)), ONE, 1.0) if clock == "own" else 0
            t.ev(k, y=qa(y, ONE), pure=bool(torch.equal(x, x0)), t=tick(), used=used, **kw)
            return y
        nb = 9 if R.random() < .15 else B
        new = lambda: grid(R, nb, C, H, W).to(torch.float16 if half else torch.get_default_dtype())
        x = new()
        for s in range(steps):
            t.ev("put", x=qa(x, ONE))
            if laws and frames and R.random() < .7:
                x0 = x.clone()
                mode = R.choice([0, 0, 1, 2, 3, 4])
                y = ca.get_frame(x, mode=mode)
                y = y[0] if mode else y
                t.ev("frame", y=qa(y, ONE), pure=bool(torch.equal(x, x0)), t=tick())
            y = step("step", x)
            if laws:
                if s == 0 and not (ca.conv_mode != "circular"):
                    dy, dx = R.randrange(H), R.randrange(1, W)
                    step("shift", torch.roll(x, (dy, dx), (2, 3)), dy=dy, dx=dx)
                b = R.randrange(nb)
                step("solo", x[b:b + 1].clone(), b=b + 1)
                if nb > 1:
                    step("swap", torch.flip(x, (0,)))
                step("same", x)
            if clock != "none" and R.random() < .4:
                ca.reset()
                t.ev("reset", t=tick())
            if clock == "set" and R.random() < .4:
                setdt(R.choice([.25, .125, .5, 1.0, .0625]))
            x = y if R.random() < .7 else new()
    # the clock of variants accumulates their own (non-dyadic) steps: rounding to 1/65536
    out.guard(id, go, head=dict(clockdt=clock, tol=tol, ttol=0 if clock == "set" else 1 + 16 * steps))


def grid(R, B, C, H, W):
    g = torch.Generator().manual_seed(R.randrange(1 << 30))
    k = R.randrange(5)
    x = torch.rand(B, C, H, W, generator=g)
    if k == 1:
        x = torch.round(x)
    elif k == 2:
        x = x * (torch.rand(B, C, H, W, generator=g) > .6)
    elif k == 3:
        x = x * 0.3
    # a 1/1024 lattice keeps recorded inputs exact and away from the alive threshold
    return torch.round(x * 1024) / 1024


M = 4 if THOROUGH else 1
for i in range(10 * M):
    R = rng("cca", i)
    E, I = [(1, 1), (1, 3), (2, 2), (4, 4), (3, 3), (5, 5), (4, 1), (2, 4), (6, 6), (3, 1)][i % 10]
    history("cca%d" % i, lambda: CCA(external_channels=E, internal_channels=I, kernel_radius=R.choice([2, 3, 4])), R)
for i in range(6 * M):
    R = rng("pad", i)
    E = [1, 4, 2][i % 3]
    history("pad%d" % i, lambda: CCA(external_channels=E, internal_channels=E, kernel_radius=2,
                                     conv_mode=["zeros", "reflect"][i % 2]), R)
for i in range(4 * M):
    # half precision universes on a CPU automaton
    R = rng("half", i)
    E = [1, 4, 2, 1][i % 4]
    history("half%d" % i, lambda: CCA(external_channels=E, internal_channels=E, kernel_radius=3), R, half=True, frames=False, tol=128)
for n, cfg in [("orbium", lambda: get_orbium_config(radius=4)), ("geminium", lambda: get_geminium_config(radius=4)),
               ("smooth", lambda: get_smooth_life_config(radius=3)), ("life", get_life_like_config)]:
    R = rng(n)
    # interval rules are steep: a float ulp of the neighbourhood may show
    history("cfg-" + n, CCA, R, prep=lambda ca: ca.load_config(cfg()), tol=64)
for i in range(4 * M):
    R = rng("lenia", i)
    E = [1, 2, 4, 1][i % 4]
    history("lenia%d" % i, lambda: Lenia(external_channels=E, internal_channels=E, kernel_radius=3), R)
for i in range(8 * M):
    R = rng("nca", i)
    E, I = [(1, 1), (4, 4), (1, 2), (2, 2), (3, 3), (4, 8), (1, 1), (2, 1)][i % 8]
    act = ["Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity", "Gaussian"][i % 8]
    history("nca%d" % i, lambda: NCA(external_channels=E, internal_channels=I, hidden_channels=6, activation=act,
                                     kernel_radius=3).eval(), R)
for i in range(3 * M):
    R = rng("rxn", i)
    history("rxn%d" % i, lambda: RxnDfn(), R)
for i in range(4 * M):
    R = rng("code", i)
    history("code%d" % i, lambda: CODE(kernel_radius=3, external_channels=[1, 4][i % 2], internal_channels=[1, 4][i % 2]), R, clock="own", laws=False)
for i in range(4 * M):
    R = rng("rs", i)
    # equal generator states make equal steps
    history("rnd%d" % i, lambda: RandomStepCA(kernel_radius=3, external_channels=[1, 4][i % 2], internal_channels=[1, 4][i % 2]), R,
            clock="own", frames=False, before=lambda t, ca, tick: np.random.seed(i), steps=3)
    history("rndw%d" % i, lambda: RandomStepCA(kernel_radius=3), R, clock="own", laws=False, steps=5)
def still(t, ca, tick):
    "no momentum: every step starts from the same state"
    ca.reset()
    t.ev("reset", t=tick())


for i in range(4 * M):
    R = rng("meta", i)
    E, I = [(1, 1), (4, 4), (2, 4), (3, 3)][i % 4]
    history("meta%d" % i, lambda: MetaCA(kernel_radius=3, external_channels=E, internal_channels=I), R, frames=False, before=still)
    history("metaw%d" % i, lambda: MetaCA(kernel_radius=3), R, laws=False, steps=4)
out.write()
