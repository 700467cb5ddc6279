"""C21 part 3: Lenia's update ignores the cell's own value."""
from harness import *
import rules
from yuca.lenia import Lenia

out = Out()


def case(i):
    R = rng("lenia", i)
    rule = rules.random_rule(R, i, lenia=True)

    def go(t):
        ca = rule.install(Lenia(**rule.kwargs()))
        B, H, W = R.randint(1, 2), R.randint(3, 6), R.randint(3, 6)
        for s in range(3):
            g = rule.grid(R, B, H, W)
            b = R.randrange(B)
            x = torch.tensor(g, dtype=torch.get_default_dtype()) / rule.SX
            t.ev("put", g=g[b])
            for k in R.choice([["step"], ["frame", "step"]]):
                x0 = x.clone()
                y = ca.get_frame(x) if k == "frame" else ca(x)
                t.ev(k, out=q(y[b], rule.out_scale), pure=bool(torch.equal(x, x0)), chain=False, t=q1(float(ca.t_count), 64))
            if R.random() < .3:
                ca.reset()
                t.ev("reset", t=q1(float(ca.t_count), 64))
    out.guard("l%d" % i, go, head=dict(rule=rule.tla))


for i in range(600 if THOROUGH else 90):
    case(i)
out.write()
