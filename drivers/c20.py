"""Seeding, masks, apertures and prepared batches of every shape."""
from harness import *
import yuca.utils as utils
from yuca.utils import seed_all, get_mask, get_bite_mask, get_aperture, prep_input, make_target

out = Out()
SIZES = [2, 3, 4, 5, 7, 8, 9, 13, 16, 21, 32, 33, 48, 58, 64, 98, 99, 128, 200, 256]


def bits(a):
    a = np.asarray(a, dtype=np.float64)
    return np.where((a == 0) | (a == 1), a, BIG).astype(int)


def rows_of(h, R, n=24):
    return list(range(h)) if h <= n else sorted(set([0, h - 1, h // 2, h // 2 - 1] + [R.randrange(h) for _ in range(n)]))


def image(R, square=True, big=True):
    sizes = SIZES if big else [x for x in SIZES if x <= 33]
    h = R.choice(sizes)
    w = h if square else R.choice(sizes)
    return np.random.RandomState(R.randrange(10 ** 6)).rand(1, R.choice([1, 1, 2, 3, 5]), h, w)


def masks(n):
    R = rng("c20m", n)

    def go(t):
        for _ in range(4):
            shape = R.choice([(7,), (3, 5), (1, 2, 4, 4)])
            g = np.array([R.randrange(0, 9) for _ in range(int(np.prod(shape)))])
            rad = R.choice([0, 1, 3, 4, 8, 9])
            x = (g / 8.).reshape(shape)
            keep = x.copy()
            m = get_mask(x, rad / 8.)
            t.ev("mask", grid=g.tolist(), rad=rad, got=bits(m).ravel().tolist(), pure=bool((x == keep).all()), shape=list(m.shape) == list(shape))
        for _ in range(4):
            img = image(R, R.random() < .7)
            _, ch, h, w = img.shape
            rad = R.choice([0, 50, 100, 333, 500, 750, 975, 1000, 1500, R.randrange(0, 1600)])
            cx, cy = [R.choice([0, 0, 16 * R.randrange(-2 * h, 2 * h + 1), 64 * R.randrange(-h // 2, h // 2 + 1)]) for _ in range(2)]
            keep = img.copy()
            coords = R.choice([list, tuple, np.array])([cx / 64., cy / 64.])
            m = get_bite_mask(img, rad / 1000., coords)
            rows = rows_of(h, R)
            t.ev("bite", h=h, w=w, ch=ch, rad=rad, cx=cx, cy=cy, rows=[r + 1 for r in rows], dims=list(m.shape), cells=bits(m[0][:, rows]).tolist(),
                 pure=bool((img == keep).all()))
            rad = R.choice([0, 100, 500, 900, 970, 974, 975, 976, 980, 1000, 1500, R.randrange(0, 1200)])
            m = get_aperture(img, rad / 1000.)
            t.ev("aperture", h=h, w=w, ch=ch, rad=rad, cx=0, cy=0, rows=[r + 1 for r in rows], dims=list(m.shape), cells=bits(m[0][:, rows]).tolist(),
                 pure=bool((img == keep).all()))
            tgt = make_target(img[0])
            t.ev("target", h=h, w=w, ch=ch, dims=list(tgt.shape), same=bool((tgt.double().numpy()[0] == img[0]).all()))
    out.guard("masks-%d" % n, go)


def batches(n):
    R = rng("c20b", n)

    def go(t):
        seed_all(n)
        h = R.choice([8, 8, 9, 12, 13, 16])
        ch = R.choice([1, 1, 2, 3, 4])
        img = 0.5 + np.array([R.choice([64, R.randrange(0, 65), R.randrange(0, 65)]) for _ in range(ch * h * h)]).reshape(1, ch, h, h) / 128.
        extra = R.choice([None, None, ch, ch + 1, ch + 4])
        samples = R.choice([1, 2, 5, 32, None])
        aperture = R.choice([None, 1000, 980, 975, 900, 500, 250])
        bite = R.choice([None, 0, 100, 250, 500, 900])
        level = R.choice([None, 0, 50000, 200000])
        kw = {}
        for name, v, s in (("external_channels", extra, 1), ("batch_size", samples, 1), ("aperture_radius", aperture, 1000.), ("bite_radius", bite, 1000.), ("noise_level", level, 1e6)):
            if v is not None:
                kw[name] = v if s == 1 else v / s
        keep = img.copy()
        b = prep_input(img, **kw)
        level = 50000 if level is None else level
        v = b.detach().double().numpy()
        kept = (v[:, :ch] >= 0.45).astype(int)
        noise = v[:, :ch] - kept * img
        few = list(range(min(len(v), 5)))
        t.ev("batch", h=h, w=h, ch=ch, samples=samples or 32, channels=extra or ch, dims=list(b.shape), bite=100 if bite is None else bite,
             aperture=1000 if aperture is None else aperture, level=level, clean=bool(np.isfinite(v).all()), noiselow=int(qa(noise.min(), 1e6)),
             noisehigh=int(qa(noise.max(), 1e6)), noises=bool(len(np.unique(np.rint(noise * 1e7))) > noise.size * .5),
             silent=int((np.abs(noise) < 2e-7).sum()), cells=int(noise.size), extra=int(np.count_nonzero(v[:, ch:])), alike=bool((kept == kept[:, :1]).all()), pure=bool((img == keep).all()),
             kept=[kept[s, 0].tolist() for s in few])
    out.guard("batch-%d" % n, go)


def draw(kind):
    if kind == "torch":
        return [torch.rand(3), torch.randn(2), torch.randint(0, 10 ** 6, (2,)), torch.randperm(9)]
    if kind == "numpy":
        return [np.random.rand(3), np.random.randn(2), np.random.randint(0, 10 ** 6, 2), np.random.permutation(9)]
    if kind == "normal":
        return [np.random.multivariate_normal(np.zeros(2), np.eye(2)), torch.normal(0., 1., (3,))]
    if kind == "layer":
        return [p.detach() for p in torch.nn.Conv2d(2, 3, 3).parameters()]
    return [b.detach() for b in [prep_input(np.ones((1, 1, 8, 8)), batch_size=2)]] + [get_bite_mask(np.ones((1, 1, 8, 8)), .3)]


def seeds(n):
    import hashlib
    R = rng("c20s", n)

    def go(t):
        pool = R.sample([0, 1, 2, 13, 42, 1337, 12345, 100000, 2 ** 31, 2 ** 32 - 1, R.randrange(10 ** 6)], 3)
        for _ in range(24):
            if R.random() < .4:
                i = R.randrange(3)
                if pool[i] == 13 and R.random() < .5:
                    seed_all()
                else:
                    seed_all(pool[i])
                t.ev("seed", s=i)
            else:
                kind = R.choice(["torch", "numpy", "normal", "layer", "input"])
                h = hashlib.sha1(b"".join(np.asarray(x, dtype=np.float64).tobytes() for x in draw(kind))).hexdigest()[:12]
                t.ev("draw", kinds=kind, value=h)
    out.guard("seeds-%d" % n, go)


for n in range(40 if not THOROUGH else 400):
    masks(n)
for n in range(60 if not THOROUGH else 600):
    batches(n)
def bites(n):
    """where bites land when nobody says where"""
    def go(t):
        seed_all(100 + n)
        h = [33, 16, 9][n % 3]
        at = []
        for _ in range(80):
            z = np.argwhere(get_bite_mask(np.ones((1, 1, h, h)), .25)[0, 0] == 0)
            if len(z) and z.min() > 0 and z.max() < h - 1:
                at.append([int(round(64 * float(v))) for v in z.mean(0)])
        t.ev("bites", at=at, h=h)
    out.guard("bites-%d" % n, go)


for n in range(3 if not THOROUGH else 30):
    bites(n)
for n in range(40 if not THOROUGH else 300):
    seeds(n)
out.write()
