"""C21 part 2: Lenia (exact, YucaRule with lenia) and the momentum automaton."""
from harness import *
import rules
from yuca.metaca import MetaCA

out = Out()


def case(i):
    R = rng("meta", i)
    rule = rules.random_rule(R, i)
    while rule.out_scale * 8 > 1 << 21:
        rule = rules.Rule(R, fams=["spike", "intervals", "mix3"], SX=4, SK=4, dt=(1, 2))
    MS = 4 * rule.up_scale

    def go(t):
        ca = rule.install(MetaCA(**rule.kwargs()))
        B, H, W = R.randint(1, 2), R.randint(3, 5), R.randint(3, 5)
        for s in range(5):
            if R.random() < .2:
                B = R.randint(1, 2)
                H = R.randint(3, 5)
            g = rule.grid(R, B, H, W)
            x = torch.tensor(g, dtype=torch.get_default_dtype()) / rule.SX
            x0 = x.clone()
            y = ca(x)
            t.ev("step", g=g, shape=list(x.shape), out=q(y, MS * rule.dt[1]), pure=bool(torch.equal(x, x0)))
            if R.random() < .25:
                ca.reset()
                t.ev("reset")
    out.guard("m%d" % i, go, head=dict(rule=rule.tla))


for i in range(700 if THOROUGH else 100):
    case(i)
torch.set_default_dtype(torch.float64)
for i in range(1000, 1000 + (100 if THOROUGH else 15)):
    case(i)
out.write()
