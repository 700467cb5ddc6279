"""C02: Life-like configurations against B/S Life."""
from harness import *
from yuca.ca.continuous import CCA
from yuca.configs import get_life_like_config

out = Out()


def lq(t):
    return q(t[0, 0], 1, tol=1e-3)


def soup(R, h, w, p):
    return [[1 if R.random() < p else 0 for _ in range(w)] for _ in range(h)]


def universal(R, h, w):
    """a grid in which every (state, live-neighbour count) pair occurs"""
    while True:
        g = [[0] * w for _ in range(h)]
        for y in range(h):
            p = (y + 0.5) / h
            for x in range(w):
                g[y][x] = 1 if R.random() < p else 0
        seen = set()
        for y in range(h):
            for x in range(w):
                n = sum(g[(y + a) % h][(x + b) % w] for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b)
                seen.add((g[y][x], n))
        if len(seen) == 18:
            return g


def run(id, b, s, g, runs, getca):
    def go(t):
        ca = getca(b, s)
        t.ev("put", g=g)
        x = torch.tensor(g, dtype=torch.get_default_dtype()).reshape(1, 1, len(g), len(g[0]))
        for n in runs:
            for _ in range(n):
                x = ca(x)
            t.ev("run", n=n, out=lq(x))
    out.guard(id, go, head=dict(b=list(b), s=list(s)))


def fresh(b, s):
    ca = CCA()
    ca.load_config(get_life_like_config(birth=list(b), survival=list(s)))
    return ca


shared = {}


def reused(b, s):
    if "ca" not in shared:
        shared["ca"] = CCA()
    shared["ca"].load_config(get_life_like_config(birth=list(b), survival=list(s)))
    return shared["ca"]


def bits(v):
    return [k for k in range(9) if v >> k & 1]


# every birth set and every survival set, one step on a grid with every situation
R = rng("c02")
perm = list(range(512)); R.shuffle(perm)
uni = [universal(R, 16, 14) for _ in range(4)]
for b in range(512):
    run("u%d" % b, bits(b), bits(perm[b]), uni[b % 4], [1], reused)
# evolutions
named = [([3], [2, 3]), ([3, 6], [2, 3]), ([2], []), ([], list(range(9))), ([1, 3, 5, 7], [1, 3, 5, 7]),
         ([3, 6, 8], [2, 4, 5]), ([3, 5, 6, 7, 8], [4, 6, 7, 8]), ([0], [8]), ([4, 6, 7, 8], [3, 5, 6, 7, 8]), ([], [])]
n = 0
for rep in range(6 if THOROUGH else 2):
    for b, s in named + [(bits(R.randrange(512)), bits(R.randrange(512))) for _ in range(12)]:
        h, w = R.randint(3, 11), R.randint(3, 11)
        run("e%d" % n, b, s, soup(R, h, w, R.choice([0.15, 0.35, 0.5, 0.8])), [1, 1, 1, 2, 3, 4], fresh)
        n += 1
# long runs: rounding must not accumulate
for i in range(4):
    b, s = named[i]
    run("l%d" % i, b, s, soup(R, 8, 9, 0.4), [60, 60] if not THOROUGH else [300, 300], fresh)
# unordered and tuple rule lists
run("t0", [6, 3], [3, 2], uni[0], [1, 1], lambda b, s: fresh(tuple(b), tuple(s)))
# double precision
torch.set_default_dtype(torch.float64)
for i in range(6):
    b, s = named[i]
    run("d%d" % i, b, s, soup(R, 7, 9, 0.4), [1, 2, 5], fresh)
torch.set_default_dtype(torch.float32)
out.write()
