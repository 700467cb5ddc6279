"""Rendering: the real save_fig_sequence in a scratch folder, destructive calls
confined by fsguard; animations are decoded again and compared with the states."""
from harness import *
import hashlib, tempfile
import fsguard
from PIL import Image, ImageSequence
import matplotlib.pyplot as plt
import skimage.io
import time as _time
import yuca.utils as U
from yuca.ca.continuous import CCA
from yuca.ca.neural import NCA
from yuca.ca.reaction_diffusion import RxnDfn
from yuca.configs import get_life_like_config

out = Out()
ROOT = os.path.realpath(os.environ["VERIF_SCRATCH"])
CLEAN = __import__("shutil").rmtree
SHOTS = []
_imsave = skimage.io.imsave
_clock = [_time.time, None]


def imsave(path, img, *a, **k):
    SHOTS.append(np.array(img).tolist())
    return _imsave(path, img, *a, **k)


skimage.io.imsave = imsave
U.time.time = lambda: _clock[1] if _clock[1] is not None else _clock[0]()
fsguard.install(ROOT)


class Roll:
    """levels k/8 roll to the right; every other step they lose `fade` eighths"""

    def __init__(self, fade, sudden):
        self.fade, self.sudden, self.t_count, self.my_device = fade, sudden, 0.0, "cpu"
        self.dt = 1.0
        self.k = {}

    def get_frame(self, g, mode=0):
        y = torch.roll(g, 1, -1)
        y = torch.clamp(y - self.fade / 8, 0, 1)
        if self.sudden and float(y[:, :, 0, 0].max()) == 1.0:
            y = 0.0 * y
        return y

    def no_grad(self): pass
    def to_device(self, d): self.my_device = d

    def __call__(self, g):
        self.t_count += self.dt
        return self.get_frame(g)


def disk(base, gifs, frames):
    """files around: parent of the frames, animations, anything else in the base"""
    fs = []
    for d, ds, names in os.walk(base):
        real = os.path.realpath(d)
        if real == os.path.realpath(frames):
            continue
        for x in ds:
            if os.path.realpath(os.path.join(d, x)) not in (os.path.realpath(frames), os.path.realpath(gifs)) and not any(os.path.realpath(y).startswith(os.path.realpath(os.path.join(d, x)) + os.sep) for y in (gifs, frames)):
                fs.append(dict(dir=os.path.relpath(d, base), name=x + "/", id="dir"))
        for x in names:
            p = os.path.join(d, x)
            where = "gifs" if real == os.path.realpath(gifs) and x.endswith("gif") else os.path.relpath(d, base)
            fs.append(dict(dir=where, name=x, id=hashlib.sha1(open(p, "rb").read()).hexdigest()[:12]))
    return fs


def decode(path):
    fs = []
    with Image.open(path) as im:
        for f in ImageSequence.Iterator(im):
            n = max(1, round(f.info.get("duration", 42) / 42))
            fs += [np.array(f.convert("RGB")).tolist()] * n
    return fs


TABLES = {c: [[int(v) for v in np.uint8(255 * np.array(plt.get_cmap(c)(i)))] for i in range(256)] for c in ("magma", "gray", "viridis")}


def scenario(i):
    R = rng("c17", i)
    cname = R.choice(["magma", "magma", "gray", "viridis"])

    def go(t):
        base = tempfile.mkdtemp(dir=ROOT)
        os.chdir(base)
        torch.manual_seed(i + 1); np.random.seed(i + 1)
        kind = ["roll", "roll", "roll", "life", "cca", "nca", "rxn", "roll"][i % 8]
        # things that must survive
        par = R.choice(["assets", "my assets", "a*b", "assets", "out/deep"])
        os.makedirs(os.path.join(base, par, "keep"))
        for p in (par + "/keep/k.png", par + "/photo.png", "my", "frame_00000.png", par + "/frame_00001.png", par + "/notes.txt"):
            with open(os.path.join(base, p), "w") as f:
                f.write("precious " + p)
        fr = R.choice(["gif_frames", "gif_frames", "my frames", "f", "exp_1", "x/y"])
        frames = os.path.join(base, par, fr)
        rel = R.random() < .3
        gifbase = os.path.join(base, R.choice([par, par, "pics", "new/pics"]))
        defaults = R.random() < .15
        if defaults:
            os.makedirs(os.path.join(base, "assets", "gif_frames_old"), exist_ok=True)
            frames, gifbase = os.path.join(base, "assets", "gif_frames"), os.path.join(base, "assets")
        ch = R.choice([1, 1, 2, 3, 4, 5]) if kind == "roll" else {"life": 1, "rxn": 2}.get(kind, R.choice([1, 3, 4]))
        h, w = R.choice([(3, 3), (4, 5), (5, 4), (6, 7)])
        if kind == "roll":
            ca = Roll(R.choice([0, 0, 1, 2]), R.random() < .2)
            S, slack = 8, 0
        elif kind == "life":
            ca = CCA(); ca.load_config(get_life_like_config(birth=[3], survival=[2, 3])); ca.no_grad()
            S, slack = 65536, 8
            h = w = 7
        elif kind == "rxn":
            ca = RxnDfn(); ca.no_grad()
            S, slack = 65536, 8
        else:
            ca = (CCA if kind == "cca" else NCA)(external_channels=ch, internal_channels=ch, kernel_radius=2)
            ca.no_grad(); ca.eval()
            S, slack = 65536, 8
            h = w = 6
        for _ in range(R.choice([0, 2])):
            ca(torch.rand(1, ch, h, w))
        t.ev("open", files=disk(base, base, frames), clock=qa(float(ca.t_count), 1000))
        tagn = ["t", "universe life", "tag.v1"]
        _clock[1] = 1234.5678 if R.random() < .5 else None
        for rep in range(R.choice([1, 2, 3])):
            n = R.choice([0, 1, 2, 3, 4, 6, 9, 10, 11]) if i % 10 else R.choice([49, 50, 51, 99, 100, 101])
            speed = R.choice([1, 1, 2, 3])
            if kind == "life":
                g = torch.zeros(1, 1, h, w)
                pat = R.choice([[(0, 1), (1, 2), (2, 0), (2, 1), (2, 2)], [(1, 0), (1, 1), (1, 2)], [(0, 0), (0, 1)], [(0, 0), (0, 1), (1, 0), (1, 1)], []])
                for a, b in pat:
                    g[0, 0, a, b] = 1
            elif kind == "roll":
                p = R.choice([0, .3, .9])
                g = torch.tensor([[[[R.randint(1, 8) / 8 if R.random() < p else 0 for _ in range(w)] for _ in range(h)] for _ in range(ch)] for _ in range(R.choice([1, 2]))])
            else:
                g = torch.rand(1, ch, h, w)
            g0 = g.clone()
            states = [g]
            with torch.no_grad():
                for _ in range(n * speed):
                    states.append(ca.get_frame(states[-1]))
            # whether a batch has vanished when only the pattern on show has is nobody's business
            if any(float(s.max()) > 0 and float(s[0].max()) == 0 for s in states):
                g, g0, states = g[:1], g0[:1], [s[:1] for s in states]
            if kind != "roll" and any(1e-4 < float(s.max()) < 1e-2 for s in states):
                continue
            tag = R.choice(tagn + [["group", "t"], ("deep/er", "u")])
            gifs = os.path.join(gifbase, tag if isinstance(tag, str) else tag[0])
            if rep == 0:
                os.makedirs(gifs, exist_ok=True) if R.random() < .5 else None
            if os.path.isdir(gifs) and R.random() < .5:
                for x in ("gif_old_0001.gif", "readme.md", "frame_00000.png"):
                    with open(os.path.join(gifs, x), "w") as f:
                        f.write("old")
            if R.random() < .2:         # an earlier rendering was interrupted
                os.makedirs(frames, exist_ok=True)
                Image.new("RGB", (w, h)).save(os.path.join(frames, R.choice(["frame_00000.png", "frame_00777.png"])))
            t.ev("open", files=disk(base, gifs, frames), clock=qa(float(ca.t_count), 1000))
            had = {x["name"] for x in disk(base, gifs, frames) if x["dir"] == "gifs"}
            inv = R.random() < .5
            kw = dict(num_steps=n, tag=tag, speedup=speed, invert_colors=inv, cmap=plt.get_cmap(cname))
            if not defaults:
                kw.update(frames_path=os.path.relpath(frames) if rel else frames, gif_path=os.path.relpath(gifbase) if rel else gifbase)
            if speed == 1 and R.random() < .5:
                kw.pop("speedup")
            if cname == "magma" and R.random() < .5:
                kw.pop("cmap")
            if inv and R.random() < .5:
                kw.pop("invert_colors")
            SHOTS.clear(); fsguard.ESCAPES.clear()
            U.save_fig_sequence(g, ca, **kw)
            fs = disk(base, gifs, frames)
            new = [x["name"] for x in fs if x["dir"] == "gifs" and x["name"] not in had]
            gif = decode(os.path.join(gifs, new[0])) if len(new) == 1 else []
            left = len(os.listdir(frames)) if os.path.isdir(frames) else 0
            if os.path.isdir(frames):
                CLEAN(frames)
            t.ev("render", files=fs, framesleft=left, clock=qa(float(ca.t_count), 1000), same=bool(torch.equal(g, g0)), escapes=len(fsguard.ESCAPES),
                 n=n, speed=speed, invert=inv, S=S, slack=slack, eps=0 if slack == 0 else 60, exact=ch <= 3 and h * w <= 200,
                 states=[qa(s[0], S) if slack else q(s[0], S) for s in states], png=list(SHOTS), gif=gif)
        os.chdir(ROOT)
        CLEAN(base)
    out.guard("render-%d" % i, go, head=dict(table=TABLES[cname]))
    os.chdir(ROOT)


if __name__ == "__main__":
    for i in range(700 if THOROUGH else 96):
        scenario(i)
    out.write()
