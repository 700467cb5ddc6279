"""Fitness wrappers: every CA step and prediction made while a reward is computed is
recorded; RewardTrace recomputes the reward.  The CA is scripted (patterns that
die, freeze, oscillate, glide) or a real one, the wrappers are always real."""
from harness import *
import yuca.cmaes  # noqa
from yuca.ca.continuous import CCA
from yuca.ca.neural import NCA
from yuca.code import CODE
from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
from yuca.wrappers.glider_wrapper import GliderWrapper
from yuca.wrappers.random_wrapper import RandomWrapper
from evolib import vid

out = Out()


class Tape:
    """records the calls of one automaton"""

    def __init__(self, t, ca, kind):
        self.t, self.kind, self.last = t, kind, None
        self.table = {}
        self.soups = {}
        self.ca = ca
        self.off = False

    def note(self, x, y):
        if self.off:
            return
        x, y = x.detach(), y.detach()
        new = self.last is None or self.last.shape != x.shape or not torch.equal(self.last, x)
        b = x.shape[0]
        kw = dict(new=new, alive=[bool(v) for v in (y.reshape(b, -1).max(1)[0] > 1e-6)],
                  dead=[bool(v) for v in (y.reshape(b, -1).max(1)[0] == 0)],
                  moved=qa((y - x).abs().reshape(b, -1).max(1)[0], 1e6, 10 ** 7),
                  tops=qa(y.reshape(b, -1).max(1)[0], 1e6, 10 ** 7),
                  means=qa(y.reshape(b, -1).mean(1), 1e6, 10 ** 7), dmeans=qa((y - x).abs().reshape(b, -1).mean(1), 1e6, 10 ** 7),
                  pid=vid(self.table, self.ca.get_params()))
        if new and self.kind != "glider":
            nz = (x.sum(dim=(0, 1)) > 0).nonzero()
            kw["soup"] = dict(shape=list(x.shape), fp=vid(self.soups, x.double().numpy()),
                              lo=[int(v) for v in nz.min(0)[0]] if len(nz) else [-1, -1],
                              hi=[int(v) for v in nz.max(0)[0]] if len(nz) else [-1, -1],
                              distinct=len({x[i].double().numpy().tobytes() for i in range(b)}),
                              lowest=int(x.min() * 1000), highest=int(x.max() * 1000), levels=int(len(torch.unique(x))))
        if self.kind == "glider":
            kw["cols"] = qa(y[0].sum(dim=(0, 1)), 256)
            kw["mass"] = qa(y.double().sum(), 256)
            if new:
                kw["mass0"] = qa(x.double().sum(), 256)
        self.t.ev("call", **kw)
        self.last = y.clone()


class Script:
    """a CA whose states are scripted: frame(c, like) -> grid"""

    def __init__(self, **kw):
        self.external_channels = kw.get("external_channels", 1)
        self.kernel_radius = kw.get("kernel_radius", 3)
        self.my_device = "cpu"
        self.p = np.array([0.5, 0.25])
        self.tape = None
        self.c = 0

    def no_grad(self): pass
    def eval(self): pass
    def reset(self): pass
    def to_device(self, d): self.my_device = d
    def get_params(self): return 1.0 * self.p
    def set_params(self, p): self.p = np.array(p, dtype=np.float64)

    def __call__(self, x):
        tp = self.tape
        if tp.last is None or tp.last.shape != x.shape or not torch.equal(tp.last, x):
            self.c = 0
            self.scene = self.new_scene(x)
        self.c += 1
        y = self.frame(self.c, x)
        tp.note(x, y)
        return y


def wire(w, t, kind):
    """attach the tape to the wrapper's automaton"""
    tape = Tape(t, w.ca, kind)
    if isinstance(w.ca, Script):
        w.ca.tape = tape
    else:
        f0 = w.ca.forward

        def forward(x, *a, **k):
            y = f0(x, *a, **k)
            tape.note(x, y)
            return y
        w.ca.forward = forward
    return tape


def fate_script(R, b, ch, dim, horizon):
    """each soup: sample i dies after d_i steps, freezes after f_i"""
    ca = Script(external_channels=ch)
    ca.faint = R.choice([1, 1, 2 ** -10, 2 ** -14])       # how strong what survives is

    def new_scene(x):
        kind = R.choice(["mixed", "mixed", "mixed", "dead", "alive", "late", "still"])
        sc = []
        for i in range(b):
            d = {"mixed": R.choice([1, 3, 7, 8, 9, horizon - 1, horizon, horizon + 1, horizon + 2, 9999, 9999]),
                 "dead": R.choice([1, 2, 8, 9]), "alive": 9999, "late": R.choice([horizon, horizon + 1, horizon + 2]), "still": 9999}[kind]
            f = 9999 if R.random() < .4 else R.choice([0, 4, 8, 9, horizon, horizon + 1, horizon + 2])
            if kind == "still":
                f = 0
            sc.append((d, f, R.randrange(ch), R.choice([None, (R.randrange(dim), R.randrange(dim))])))
        return sc

    def frame(c, x):
        y = torch.zeros(*x.shape)
        for i, (d, f, k, cell) in enumerate(ca.scene):
            if c >= d:
                continue
            v = ((.75 if c % 2 else .25) if c < f else .5) * ca.faint
            if cell is None:
                y[i, k] = v
            else:
                y[i, k, cell[0], cell[1]] = v
        return y
    ca.new_scene, ca.frame = new_scene, frame
    return ca


def actions(R, w):
    n = int(np.prod(w.ca.get_params().shape))
    return np.array([R.choice([.125, .25, .5, .75, .015625] + ([-.25, 1.5] if isinstance(w.ca, Script) else [])) for _ in range(n)])


def simple(i):
    R = rng("c14simple", i)
    realca = i % 4 == 3
    b, ch, dim = R.choice([1, 2, 3, 5, 8]), R.choice([1, 2, 3]), R.choice([8, 9, 12, 14])
    steps = R.choice([1, 2, 3, 6]) if i % 25 != 6 else 1100
    head = dict(kind="simple", steps=steps, batch=b, ch=ch, dim=dim, mode=0, r=3, start="")

    def go(t):
        torch.manual_seed(1 + i); np.random.seed(1 + i)
        cf = R.choice([CCA, CODE]) if realca else (lambda **kw: fate_script(R, b, ch, dim, steps))
        w = SimpleHaltingWrapper(ca_fn=cf, ca_steps=steps, batch_size=b, dim=dim, external_channels=ch, kernel_radius=2,
                                 prediction_mode=R.choice([0, 1, 2]))
        w.eval() if R.random() < .5 else None
        tape = wire(w, t, "simple")
        if R.random() < .3:
            w.to_device("cpu")
        for _ in range(R.choice([1, 2, 3])):
            a = actions(R, w)
            with torch.no_grad():
                obs, rew, done, info = w.step(a)
            t.ev("result", reward=qa(float(rew), 1e6), active=qa(float(info["active_grid"]), 1e6), pid=vid(tape.table, a),
                 after=vid(tape.table, w.get_params()), info=vid(tape.table, info["params"]), steps=int(info["ca_steps"]))
            tape.last = None
    out.guard("simple-%d%s" % (i, "-real" if realca else ""), go, head=head)


def halting(i):
    R = rng("c14halting", i)
    realca = i % 4 == 3
    b, ch, dim = R.choice([1, 2, 3, 5]), R.choice([1, 2, 3]), R.choice([8, 16])
    steps = R.choice([1, 2, 3, 5])
    mode = [0, 1, 2][i % 3]
    head = dict(kind="halting", steps=steps, batch=b, ch=ch, dim=dim, mode=mode, r=3, start="")
    scripted = R.random() < .6          # scripted predictions
    drop = R.choice([0.0, 0.5])

    def go(t):
        torch.manual_seed(1 + i); np.random.seed(1 + i)
        cf = R.choice([CCA, NCA]) if realca else (lambda **kw: fate_script(R, b, ch, dim, steps + 8))
        w = HaltingWrapper(ca_fn=cf, ca_steps=steps, batch_size=b, dim=dim, external_channels=ch, kernel_radius=2,
                           prediction_mode=mode, num_blocks=R.choice([1, 2]), dropout=drop)
        for rep in range(R.choice([1, 2])):
            w.reset()
            w.ca.no_grad() if realca else None
            tape = wire(w, t, "halting") if rep == 0 else tape
            tape.last = None
            orig = type(w).forward

            def forward(x):
                y = orig(w, x)
                steady = True
                if drop:
                    steady = bool(torch.equal(y, orig(w, x)))
                else:
                    steady = bool(not w.final_layer.training)
                if scripted:
                    y = y - y.detach() + torch.tensor([[R.choice([.02, .2, .45, .55, .8, .98]) for _ in range(y.shape[1])] for _ in range(y.shape[0])])
                own = tape.last is not None and torch.equal(tape.last, x.detach())
                t.ev("pred", p=qa(y, 1000), shape=list(y.shape), steady=steady, own=own, wts=vid(tape.table, net()))
                return y

            def net():
                return np.concatenate([p.detach().double().numpy().ravel() for m in list(w.layers) + [w.final_layer] for p in m.parameters()])
            w.forward = forward
            w.loss_fn.register_forward_hook(lambda mod, py, res: t.ev("loss", target=qa(py[1], 1000), p=qa(py[0], 1000)) and None)
            a = actions(R, w)
            obs, rew, done, info = w.step(a)
            t.ev("result", reward=qa(float(rew), 1e6), active=qa(float(info["active_grid"]), 1e6), pid=vid(tape.table, a),
                 after=vid(tape.table, w.get_params()), info=vid(tape.table, info["params"]), steps=int(info["ca_steps"]), wts=vid(tape.table, net()))
            tape.last = None
    out.guard("halting-%d-m%d%s" % (i, mode, "-real" if realca else ""), go, head=head, seconds=200)


def accuracy(i):
    R = rng("c14acc", i)

    def go(t):
        w = HaltingWrapper(ca_fn=Script, dim=8)
        for _ in range(6):
            b, c = R.choice([1, 2, 5]), R.choice([1, 2])
            p = [[R.choice([0, 1, 120, 300, 480, 520, 700, 1000]) for _ in range(c)] for _ in range(b)]
            y = [[R.choice([0, 1000]) for _ in range(c)] for _ in range(b)]
            acc = w.get_accuracy(torch.tensor(p) / 1000, torch.tensor(y) / 1000)
            t.ev("accuracy", p=p, y=y, acc=qa(float(acc), 1e6))
    out.guard("accuracy-%d" % i, go, head=dict(kind="accuracy", steps=0, batch=0, ch=0, dim=8, mode=0, r=3, start=""))


def glide_script(R, b, ch, dim, r):
    ca = Script(external_channels=ch, kernel_radius=r)
    kind = R.choice(["shimmer", "shimmer", "glide", "wrap", "back", "wrap", "back", "fade", "die", "freeze", "random", "grow", "vanish0"])
    h, wd = R.choice([1, 2, 3]), R.choice([1, 2, 3])
    y0 = R.randrange(dim)
    x0 = {"wrap": dim - 1 - R.randrange(2 * r), "back": R.randrange(2 * r)}.get(kind, R.randrange(dim))
    v = {"glide": R.choice([1, 2, -1]), "wrap": R.randint(1, 3 * r), "back": -R.randint(1, 3 * r)}.get(kind, R.choice([0, 1]))
    vy = R.choice([0, 1, -1])
    end = R.choice([1, 2, 4, 6])

    def pat(c, s):
        y = torch.zeros(ch, dim, dim)
        if kind == "random":
            S = random.Random("%d-%d-%d" % (i_, c, s))
            for _ in range(S.randint(1, 6)):
                y[S.randrange(ch), S.randrange(dim), S.randrange(dim)] = S.randint(1, 16) / 16
            return y
        amp = 12
        if kind == "shimmer":           # nothing but a faint flicker
            y[s % ch, y0, x0] = 12 / 16
            if c < end or s:
                y[-1, (y0 + 2) % dim, (x0 + c) % dim] += 2 ** -R_
            return y
        if kind == "fade":
            amp = max(1, 16 - 2 * c)
        if kind == "grow":
            amp = min(16, 2 + 3 * c)
        if kind == "die" and c >= end or kind == "vanish0" and s == 0 and c >= end:
            return y
        cc = min(c, end) if kind == "freeze" else c
        vv, wy = (0, 0) if kind in ("fade", "grow") else (v, vy)
        for a in range(h):
            for e in range(wd):
                y[s % ch, (y0 + a + cc * wy + s) % dim, (x0 + e + cc * vv) % dim] = amp / 16
        return y
    i_ = R.randrange(10 ** 6)
    R_ = R.choice([8, 11, 14])
    ca.new_scene = lambda x: None
    ca.frame = lambda c, x: torch.stack([pat(c, s) for s in range(x.shape[0])])
    ca.first = lambda bb: torch.stack([pat(0, s) for s in range(bb)])
    ca.kind = kind
    return ca


def glider(i):
    R = rng("c14glider", i)
    realca = i % 5 == 4
    b, ch = R.choice([1, 1, 2, 3]), R.choice([1, 2, 3])
    r = R.choice([2, 3, 4])
    dim = R.choice([6 * r + 1, 7 * r, 8 * r - 1, 10 * r])
    steps = R.choice([1, 2, 5, 8, 12])
    if i % 50 == 7:
        steps, dim, b = 700, 6 * r + 1, 1
    head = dict(kind="glider", steps=steps, batch=b, ch=ch, dim=dim, mode=0, r=r, start="")

    def go(t):
        torch.manual_seed(1 + i); np.random.seed(1 + i)
        if realca:
            cfg = None
            if ch == 1 and R.random() < .7:
                src = CCA(kernel_radius=r, external_channels=ch, internal_channels=ch)
                cfg = src.make_config()
            kw = dict(ca_fn=CCA, kernel_radius=r, external_channels=ch)
            w = GliderWrapper(ca_steps=steps, batch_size=b, dim=dim, **kw)
            if cfg:
                w.ca.load_config(cfg)
                w.init_displacement_grid()
        else:
            w = GliderWrapper(ca_fn=lambda **kw: glide_script(R, b, ch, dim, r), ca_steps=steps, batch_size=b, dim=dim, external_channels=ch)
        if R.random() < .3:
            w.to_device("cpu")
        w.eval()
        tape = wire(w, t, "glider")
        a = w.ca.first(b) if not realca else w.action_space.sample()
        for rep in range(R.choice([1, 1, 2])):
            tape.last = None
            keep = a.clone()
            with torch.no_grad():
                obs, rew, done, info = w.step(a) if R.random() < .7 else w.meta_step(a)
            t.ev("result", reward=qa(float(rew), 4096), active=qa(float(info["active_grid"]), 1e6), cells=b * ch * dim * dim, pure=bool(torch.equal(a, keep)))
    out.guard("glider-%d%s" % (i, "-real" if realca else ""), go, head=head)


def randomw(i):
    def go(t):
        w = RandomWrapper(ca_fn=CCA, dim=8, ca_steps=2, kernel_radius=2)
        p0 = w.get_params()
        for _ in range(5):
            obs, rew, done, info = w.step(np.random.rand(*p0.shape))
            t.ev("random", reward=qa(float(rew), 1e6))
    out.guard("random-%d" % i, go, head=dict(kind="random", steps=0, batch=0, ch=0, dim=8, mode=0, r=3, start=""))


if __name__ == "__main__":
    for i in range(400 if THOROUGH else 60):
        simple(i)
    for i in range(240 if THOROUGH else 36):
        halting(i)
    for i in range(20 if THOROUGH else 4):
        accuracy(i)
    for i in range(1200 if THOROUGH else 200):
        glider(i)
    randomw(0)
    out.write()
