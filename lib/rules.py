"""Random continuous-CA rules whose arithmetic is exact in float32, with the
integer description YucaRule.tla evaluates and the code to install them in a
real automaton through its public interface."""
import torch
from harness import q, BIG

SIG = 1e-3      # spike width: neighbouring n-levels are >= 15 sigma away
ALPHA = 1e-4    # logistic steepness that saturates half a level away


def funcs(R, fam, sn, nlo, nhi, mode, deep=False):
    """-> (TLA record, config dict for the code)"""
    lev = lambda: R.randint(nlo, nhi)
    if fam == "spike":
        mu = lev()
        return (dict(k="spike", s=1, mu=mu, mode=mode),
                dict(name="Gaussian", mu=mu / sn, sigma=SIG, mode=mode))
    if fam == "mix3" or fam == "mix2":
        k = R.randint(1, 3) if fam == "mix3" else R.randint(1, 2)
        t = [[R.randint(1, 5) if fam == "mix3" else 4, lev()] for _ in range(k)]
        ps = []
        for a, m in t:
            ps += ([a / 4.0] if fam == "mix3" else []) + [m / sn, SIG]
        return (dict(k="mix", s=4, t=t, mode=mode),
                dict(name="GaussianMixture", parameters=torch.tensor(ps), mode=mode))
    if fam == "double":
        a, b = lev(), lev()
        return (dict(k="double", s=1, mu1=a, mu2=b, mode=mode),
                dict(name="DoubleGaussian", mu=torch.tensor([a / sn, b / sn]),
                     sigma=torch.tensor([SIG, SIG]), mode=mode))
    if fam == "dog":
        mu, dx = lev(), R.randint(1, 2)
        return (dict(k="dog", s=1, mu=mu, dx=dx, mode=mode),
                dict(name="DoGaussian", mu=mu / sn, sigma=SIG, dx=dx / sn, mode=mode))
    if fam == "intervals":
        t = []
        for _ in range(R.randint(1, 3)):
            a = lev()
            b = a + R.randint(1, 4)
            t.append([2 * a - 1, 2 * b - 1])
        return (dict(k="intervals", s=1, t=t, mode=mode),
                dict(name="SmoothIntervals", parameters=torch.tensor([[a / (2.0 * sn), b / (2.0 * sn)] for a, b in t]),
                     alpha=ALPHA, mode=mode))
    if fam == "poly":
        d = R.randint(0, 2) if deep else R.randint(0, 1)
        c = [R.randint(-3, 3) for _ in range(d + 1)]
        if c[-1] == 0:
            c[-1] = 1
        return (dict(k="poly", s=2 * sn ** d, sc=2, sn=sn, c=c, mode=mode),
                dict(name="Polynomial", coefficients=torch.tensor([x / 2.0 for x in c]), mode=mode))
    if fam == "relu":
        return dict(k="relu", s=sn, mode=0), dict(name="ReLU")
    if fam == "identity":
        return dict(k="identity", s=sn, mode=0), dict(name="Identity")
    if fam == "tanh":
        return dict(k="tanh", s=1, mode=0), dict(name="Tanh")
    raise ValueError(fam)


def taps_of(k, scale):
    """dense 2-D list of ints -> taps"""
    d = len(k)
    r = (d - 1) // 2
    return [[j - r, i - r, k[j][i]] for j in range(d) for i in range(d) if k[j][i]]


def rand_kernel(R, d, lo, hi, density, mult=1):
    while True:
        k = [[(R.randint(lo, hi) * mult if R.random() < density else 0) for _ in range(d)] for _ in range(d)]
        if any(any(r) for r in k):
            return k


class Rule:
    """A random rule.  .tla is the record for YucaRule, .install(ca) configures a CA."""

    def __init__(self, R, E=1, I=1, fams=("spike",), pad="circular", SX=4, SK=4, dt=(1, 4),
                 idk="unit", kd=3, thr=None, lenia=False, mult=1, modes=(0, 1), symmetric=False,
                 wlo=-2, whi=3):
        self.E, self.I, self.pad, self.SX, self.SK = E, I, pad, SX, SK
        G = E if I % E == 0 else 1
        ins = E // G
        if idk == "unit":
            ik = [[[[0, 0, 0], [0, 1, 0], [0, 0, 0]] for _ in range(ins)] for _ in range(I)]
            SI = 1
        else:
            self.idd = R.choice([3, 3, 5])
            ik = [[rand_kernel(R, self.idd, -1, 2, 0.4 if self.idd == 3 else 0.2) for _ in range(ins)] for _ in range(I)]
            SI = 2
        self.SI, self.ik = SI, ik
        nk = [[rand_kernel(R, kd, wlo, whi, 0.5, mult) for _ in range(ins)] for _ in range(I)]
        self.nk, self.kd = nk, kd
        sn = SX * SK
        gen, per, self.gcfg, self.pcfg = [], [], [], []
        for k in range(I):
            lo = sum(min(w, 0) for p in nk[k] for r in p for w in r) * SX
            hi = sum(max(w, 0) for p in nk[k] for r in p for w in r) * SX
            lo, hi = lo // 2, hi // 2 + 1
            f, c = funcs(R, R.choice(fams), sn, lo, hi, R.choice(modes), deep=(E * I == 1))
            gen.append(f); self.gcfg.append(c)
            f, c = funcs(R, R.choice(fams), sn, lo, hi, R.choice(modes), deep=(E * I == 1))
            per.append(f); self.pcfg.append(c)
        SG = max([1] + [f["s"] for f in (gen + per)])
        self.thr = thr if thr is not None else 0
        self.dt = dt
        self.tla = dict(E=E, I=I, pad=pad, SX=SX, SI=SI, SK=SK, SG=SG, dtn=dt[0], dtd=dt[1],
                        idk=[[taps_of(p, SI) for p in ps] for ps in ik],
                        nbk=[[taps_of(p, SK) for p in ps] for ps in nk],
                        gen=gen, per=per, thr=self.thr, lenia=lenia)

    @property
    def out_scale(self):
        r = self.tla
        return r["SX"] * r["SI"] * r["SG"] * r["E"] * r["I"] * r["dtd"]

    @property
    def up_scale(self):
        r = self.tla
        return r["SX"] * r["SI"] * r["SG"] * r["E"] * r["I"]

    def kwargs(self):
        return dict(internal_channels=self.I, external_channels=self.E, conv_mode=self.pad,
                    alive_threshold=self.thr / self.SX, kernel_radius=(self.kd - 1) // 2)

    def install(self, ca, flat=False):
        dt = torch.get_default_dtype()
        ik = torch.tensor(self.ik, dtype=dt) / self.SI
        nk = torch.tensor(self.nk, dtype=dt) / self.SK
        if flat:
            ik, nk = ik[0, 0], nk[0, 0]
        ca.add_identity_kernel(kernel=ik)
        ca.initialize_id_layer()
        ca.add_neighborhood_kernel(nk)
        ca.initialize_neighborhood_layer()
        ca.genesis_fns = []
        ca.persistence_fns = []
        for c in self.gcfg:
            ca.add_genesis_fn(dict(c))
        for c in self.pcfg:
            ca.add_persistence_fn(dict(c))
        ca.set_dt(self.dt[0] / self.dt[1])
        ca.no_grad()
        return ca

    def grid(self, R, B, H, W, binary=False):
        vals = [0, self.SX] if binary else list(range(self.SX + 1))
        k = R.random()
        if k < 0.06 and B == 1:      # uniform: all empty, all full, all equal
            v = R.choice([0, 0, self.SX, R.choice(vals)])
            return [[[[v] * W for _ in range(H)] for _ in range(self.E)]]
        sparse = k < 0.35
        return [[[[0 if sparse and R.random() < 0.6 else R.choice(vals) for _ in range(W)] for _ in range(H)]
                 for _ in range(self.E)] for _ in range(B)]


FAMS = ["spike", "mix3", "mix2", "double", "dog", "intervals", "poly", "relu", "identity"]
LAYOUTS = [(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 4), (4, 4), (4, 1), (4, 2), (4, 8), (5, 5), (6, 6), (5, 1), (2, 3), (3, 2), (3, 6)]


def random_rule(R, i, lenia=False, layouts=LAYOUTS, pads=("circular", "circular", "reflect", "zeros")):
    """The i-th rule of a sequence that cycles through families, layouts, paddings."""
    E, I = layouts[(i // 2) % len(layouts)] if i % 2 else (1, 1)
    fam = FAMS[i % len(FAMS)]
    if E * I > 4 and fam == "poly":
        fam = "intervals"
    fams = [fam] if i % 3 else [fam, R.choice(["spike", "intervals", "mix3", "dog"])]
    mult, SK = 1, 4
    if i % 23 == 7:
        fams, mult, SK = ["tanh"], 64, 1
    return Rule(R, E=E, I=I, fams=fams, pad=R.choice(pads), SX=4, SK=SK,
                dt=R.choice([(1, 4), (1, 2), (1, 1), (3, 4), (1, 8), (3, 2), (2, 1)]),
                idk="unit" if R.random() < 0.55 or E * I > 8 else "rand",
                kd=R.choice([3, 3, 5]), thr=R.choice([0, 1, 2]) if E >= 4 else None,
                lenia=lenia, mult=mult, modes=(0, 1))
