"""Replays configuration histories generated by ConfGen on the real automata.
CONF_PROP says which property the history is judged by."""
import copy
from harness import *
from yuca.ca.continuous import CCA
from yuca.ca.neural import NCA
from yuca.ca.reaction_diffusion import RxnDfn
from yuca.lenia import Lenia

PS, SX, OS = 1 << 20, 8, 1 << 18
CLS = dict(CCA=CCA, NCA=NCA, RxnDfn=RxnDfn, Lenia=Lenia)
PROP = os.environ["CONF_PROP"]
out = Out()
HIDDEN = 2


def dy(v):
    return np.array(v, dtype=np.float64) / PS


def fn_config(f, R):
    n, p, m = f["name"], dy(f["p"]), f["mode"]
    if n in ("Gaussian", "DoGaussian"):
        c = dict(name=n, mu=float(p[0]), sigma=float(p[1]), mode=m)
        if n == "DoGaussian":
            c["dx"] = f["q"][0] / 256.0
    elif n == "DoubleGaussian":
        c = dict(name=n, mu=torch.tensor(p[:2].tolist()), sigma=torch.tensor(p[2:].tolist()), mode=m)
    elif n == "GaussianMixture":
        k = len(p) // 2
        v = p.tolist()
        if f["q"] != [4] * k or (len(p) % 3 == 0) or R.random() < .3:
            v = []
            for i in range(k):
                v += [f["q"][i] / 4.0, p[2 * i], p[2 * i + 1]]
        c = dict(name=n, parameters=R.choice([torch.tensor, np.array, list])(v), mode=m)
    elif n == "Polynomial":
        c = dict(name=n, coefficients=torch.tensor(p.tolist()), mode=m)
    elif n == "SmoothIntervals":
        c = dict(name=n, parameters=torch.tensor([[a / 512.0, b / 512.0] for a, b in f["q"]]), alpha=1e-4, mode=m)
    else:
        c = dict(name=n)
    return c


KEYS = dict(Gaussian=("mu", "sigma"), DoGaussian=("mu", "sigma"), CosOverX2=("mu", "omega"),
            SmoothLifeKernel=("r_a", "r_i"), LaplacianOfGaussian=("sigma",))


def ker_config(k, r, R):
    c = dict(name=k["name"], radius=r)
    p = dy(k["p"])
    if k["name"] == "GaussianMixture":
        c["kernel_kwargs"] = dict(parameters=R.choice([torch.tensor, np.array, list])(p.tolist()))
    elif k["name"] != "MooreLike":
        keys = KEYS[k["name"]][::-1] if k["rev"] else KEYS[k["name"]]
        c["kernel_kwargs"] = {a: float(b) for a, b in zip(keys, p)}
    return c


def ca_config(c, R):
    d = dict(neighborhood_kernel_config=ker_config(c["ker"], c["r"], R))
    if c["dt"]:
        d["dt"] = c["dt"] / 64.0
    if c["idk"] == "cross":
        d["identity_kernel_config"] = dict(name="SmoothLifeKernel", kernel_kwargs=dict(r_a=1.0, r_i=1.0), radius=1)
    if c["cls"] in ("CCA", "Lenia"):
        d["genesis_config"] = fn_config(c["gen"], R)
        d["persistence_config"] = fn_config(c["per"], R)
    elif c["cls"] == "NCA":
        d["params"] = dy(c["gen"]["p"] + c["ker"]["p"])
    else:
        p = dy(c["gen"]["p"])
        d.update(params=p, diffusion_u=float(p[0]), diffusion_v=float(p[1]), feed_rate=float(p[2]),
                 decay_rate=float(p[3]), dx=c["dx"] / PS)
    return d


def plain(v):
    """comparable form of a configuration value"""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (torch.Tensor, np.ndarray, np.generic)):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (bool, int, float)):
        return round(float(v), 5)
    return v


def scribble(v):
    for a in (v.values() if isinstance(v, dict) else []):
        scribble(a)
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.size:
            a[...] = -3.0
        elif isinstance(a, list):
            a[:] = [-3.0] * len(a)
    if isinstance(v, dict):
        for k in v:
            if isinstance(v[k], (int, float)):
                v[k] = -3


def canon(cfg):
    c = {k: cfg[k] for k in cfg if k not in ("instant_kwargs",)}
    i = cfg.get("instant_kwargs", {})
    c["kw"] = {k: i.get(k) for k in ("external_channels", "internal_channels", "conv_mode", "hidden_channels", "activation")}
    c = plain(c)
    if isinstance(c.get("dt"), list):
        c["dt"] = c["dt"][0]
    return json.dumps(c, sort_keys=True)


def replay(idx, hist, big=False):
    R = rng("conf", PROP, idx)
    probe = [[R.choice([0, 0, 4, 8, 8, R.randint(0, 8)]) for _ in range(7)] for _ in range(6)]
    base = torch.tensor(probe) / SX
    work = os.path.join(os.getcwd(), "conf%d" % idx)
    os.makedirs(work, exist_ok=True)

    def go(t):
        torch.manual_seed(R.randrange(1 << 20))
        np.random.seed(R.randrange(1 << 20))
        obj, dicts, dts = {}, [], {}

        def keep(d):
            dicts.append((d, copy.deepcopy(d)))
            return d

        def grid(ca):
            if big:
                g = torch.Generator().manual_seed(idx)
                return torch.round(torch.rand(1, ca.external_channels, 64, 64, generator=g) * 64) / 64
            g = base.reshape(1, 1, 6, 7)
            g = torch.cat([g, torch.flip(g, (2, 3)) * .5, g * .75, torch.flip(g, (3,)) * .9], 1)
            return g[:, :ca.external_channels]

        def rows(x):
            if big:
                x = x[..., ::16, ::8]
            return qa(x.reshape(-1, x.shape[-1]), OS)

        def obs():
            r = []
            for o, ca in sorted(obj.items()):
                ca.eval()
                r.append(dict(o=o, params=qa(ca.get_params(), PS), dt=q1(float(ca.get_dt()), 1 << 20, 1.0), r=int(ca.get_kernel_radius()),
                              t=q1(float(ca.t_count), 1 << 16, 1.0), pad=str(ca.conv_mode), ch=[int(ca.external_channels), int(ca.internal_channels)],
                              frame=rows(ca.get_frame(grid(ca)))))
            return r

        def make(c):
            kw = dict(conv_mode=c["pad"])
            if R.random() < .5:
                kw["kernel_radius"] = R.randint(1, 5)
            if c["cls"] == "NCA":
                kw.update(hidden_channels=HIDDEN, activation="Tanh")
            ca = CLS[c["cls"]](**kw) if c["cls"] != "RxnDfn" else RxnDfn()
            ca.load_config(keep(ca_config(c, R)))
            return ca

        for e in hist:
            k, o = e["k"], e["o"]
            x = {a: b for a, b in e.items() if a != "k"}
            if k in ("build", "twin"):
                obj[o] = make(e["c"])
                if k == "twin":
                    obj[o].set_params(dy(e["v"]))
            elif k == "params":
                v = dy(e["v"])
                obj[o].set_params(v)
                v[:] = -7.0            # the vector is the caller's to reuse
            elif k == "roundtrip":
                obj[o].set_params(obj[o].get_params())
            elif k == "dt":
                # one tensor may serve several automata
                obj[o].set_dt(R.choice([lambda v: v / 64.0, lambda v: torch.tensor(v / 64.0),
                                        lambda v: dts.setdefault(v, torch.tensor([v / 64.0]))])(e["v"]))
            elif k == "radius":
                obj[o].set_kernel_radius(e["v"])
            elif k == "kernel":
                obj[o].set_kernel_config(keep(ker_config(e["ker"], e["r"], R)))
            elif k == "load":
                obj[o].load_config(keep(ca_config(e["c"], R)))
            elif k == "step":
                x["out"] = rows(obj[o](grid(obj[o])))
            elif k == "reset":
                obj[o].reset()
            elif k == "default":
                kw = dict(kernel_radius=e["r"], kernel_peaks=e["peaks"], external_channels=e["ext"], internal_channels=e["int"])
                if e["cls"] == "NCA":
                    kw.update(hidden_channels=HIDDEN, activation=e["act"])
                if e["thr"] > 1:
                    kw["alive_threshold"] = {2: .2, 3: .35}[e["thr"]]
                if e["cls"] != "RxnDfn":
                    kw["conv_mode"] = e["pad"]
                torch.manual_seed(e["seed"])
                np.random.seed(e["seed"])
                obj[o] = CLS[e["cls"]](**kw)
            elif k == "shipped":       # a configuration that comes with the package
                k = "default"
                C = CLS[e["cls"]]
                obj[o] = C(ca_config=e["path"]) if R.random() < .5 and e["cls"] != "RxnDfn" else C()
                obj[o].restore_config(e["path"])
            elif k == "save":
                path = os.path.join(work, "f%d.npy" % e["f"])
                scribble(obj[o].make_config())      # the caller's to modify
                obj[o].save_config(path)
                x["cfg"] = canon(np.load(path, allow_pickle=True).reshape(1)[0])
            elif k == "write":
                np.save(os.path.join(work, "f%d.npy" % e["f"]), ca_config(e["c"], R))
                t.ev(k, **x)
                continue
            elif k == "restore":
                path = os.path.join(work, "f%d.npy" % e["f"])
                C = CLS[e["cls"]]
                if e["how"] == "over":
                    obj[o].restore_config(path)
                elif e["how"] == "ctor":
                    obj[o] = C(ca_config=path) if e["cls"] != "NCA" else C(ca_config=path, **({} if big else dict(hidden_channels=HIDDEN, activation="Tanh")))
                else:
                    obj[o] = C(hidden_channels=HIDDEN, activation="Tanh") if e["cls"] == "NCA" else C()
                    obj[o].restore_config(path + ("\n" if R.random() < .2 else ""))
                x["cfg"] = canon(obj[o].make_config())
            else:
                raise ValueError(k)
            x["obs"] = obs()
            x["dicts"] = all(json.dumps(plain(a), sort_keys=True) == json.dumps(plain(b), sort_keys=True) for a, b in dicts)
            t.ev(k, **x)
    out.guard("h%d" % idx, go, head=dict(prop=PROP, probe=probe))


with open(os.environ["CONF_SCENARIOS"]) as f:
    for idx, line in enumerate(f):
        replay(idx, json.loads(line))
if PROP == "C05":
    names = sorted(n for n in os.listdir(os.path.join(os.environ["VERIF_REPO_COPY"], "ca_configs"))
                   if n.endswith(".npy"))
    keep = names if THOROUGH else [n for j, n in enumerate(names) if j % 4 == SEED % 4 or n in (
        "conway_life.npy", "smoothlife.npy", "neurolife_a.npy", "nca_clone_tanh_s643_bad.npy", "uskate_rxndfn.npy")]
    for i, n in enumerate(keep):
        cls = "NCA" if n.startswith(("neur", "nca")) else "RxnDfn" if "rxndfn" in n else "CCA"
        h = [dict(k="shipped", o=1, cls=cls, path=n), dict(k="save", o=1, f=1), dict(k="restore", o=2, f=1, cls=cls, how="new"),
             dict(k="restore", o=1, f=1, cls=cls, how="over"), dict(k="roundtrip", o=2), dict(k="save", o=2, f=2),
             dict(k="step", o=2), dict(k="restore", o=3, f=2, cls=cls, how="new" if cls == "RxnDfn" else "ctor")]
        replay(100000 + i, h, big=True)
out.write()
