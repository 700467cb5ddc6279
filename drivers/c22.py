"""Cloning with real and with scripted error trajectories.  The networks' update
is observed (and, when scripted, replaced by one of known error with a gradient)."""
from harness import *
import copy, hashlib, shutil, warnings
import yuca.clone as clone
from yuca.ca.neural import NCA
from yuca.ca.continuous import CCA

warnings.simplefilter("ignore")
out = Out()
REPO = os.environ["VERIF_REPO_COPY"]
LOGS = os.path.join(REPO, "logs")
CONFIGS = os.path.join(REPO, "ca_configs")


def fp(sd):
    h = hashlib.sha1()
    for k in sorted(sd):
        if k.startswith("weights_layer"):
            h.update(k.encode() + sd[k].detach().cpu().numpy().tobytes())
    return h.hexdigest()[:12]


def run(n):
    R = rng("c22", n)
    scripted = n % 4 != 3
    nconf = R.choice([1, 1, 2, 3])
    names = R.sample(["orbium.npy", "geminium.npy", "s613.npy", "conway_life.npy", "hedgehog.npy", "smoothlife.npy", "universe.v2.npy", "universe.v3.npy"], nconf)
    form = R.choice(["name", "path", "abs"])
    given = [x if form == "name" else os.path.join("ca_configs", x) if form == "path" else os.path.join(CONFIGS, x) for x in names]
    iterations, steps = R.choice([1, 2, 3, 4]), R.choice([1, 2, 3, 5, 8])
    if not scripted:
        iterations, steps = R.choice([1, 2]), R.choice([1, 3, 5])
    start, cap = R.choice([3, 4, 8, 16]), R.choice([4, 5, 9, 16, 30, 2048])
    cap = max(cap, start)
    threshold = R.choice([0, 35000, 35000, 120000]) if scripted else R.choice([0, 10 ** 8])
    many = nconf > 1
    save = R.choice(["nca_ca_config.pt", "ca_config.pt", "x_ca_config_y_%d.pt" % n]) if many or R.random() < .5 else "plain_%d.pt" % n
    files = [save.replace("ca_config", os.path.splitext(x)[0]) for x in names]
    # error trajectories in thousandths, without ties
    plan = []
    for _ in range(nconf):
        values = [20 + 10 * k + R.randrange(0, 5) for k in range(60)]
        if R.random() < .6:
            values = values[3:]
        R.shuffle(values)
        plan.append(values)

    def go(t):
        os.chdir(REPO)
        for x, y in (("universe.v2.npy", "orbium.npy"), ("universe.v3.npy", "s613.npy")):      # names with dots of their own
            if not os.path.exists(os.path.join(CONFIGS, x)):
                shutil.copy(os.path.join(CONFIGS, y), os.path.join(CONFIGS, x))
        before = {x: open(os.path.join(CONFIGS, x), "rb").read() for x in sorted(os.listdir(CONFIGS)) if x.endswith(".npy")}
        old = sorted(os.listdir(LOGS))
        st = dict(ca=None, nca=None, nca_n=0, conf=-1, k=0, called=[], nets=[], saved={})
        init_n, init_c, helper = NCA.__init__, CCA.restore_config, clone.torch.save
        own = [(c, c.__dict__.get('update_helper')) for c in (NCA, CCA)]
        upd_n = NCA.update_helper
        upd_c = CCA.update_helper
        depth = [0]

        def new_net(self, *a, **k):
            if depth[0]:
                return init_n(self, *a, **k)
            depth[0] += 1
            try:
                init_n(self, *a, **k)
            finally:
                depth[0] -= 1
            st["nets"].append(self)
            t.ev("new", hidden=self.hidden_channels, external=self.external_channels, internal=self.internal_channels,
                 sexternal=st["ca"].external_channels, sinternal=st["ca"].internal_channels)

        def restore(self, path, *a, **k):
            r = init_c(self, path, *a, **k)
            st["ca"] = self
            st["conf"] += 1
            st["k"] = 0
            t.ev("source", name=os.path.basename(path))
            return r

        def see_c(self, grid, *a, **k):
            r = upd_c(self, grid, *a, **k)
            if self is st["ca"]:
                st["called"] = [(grid.detach().clone(), r)]
            return r

        def see_n(self, grid, *a, **k):
            ca = st["ca"]
            with torch.no_grad():
                target = upd_c(ca, grid).detach()
            if scripted:
                e = plan[st["conf"]][st["k"] % 57] / 1000.
                pull = sum((w - w.detach()).sum() for w in self.weights_layer.parameters())
                r = target * (1 + e) + pull
            else:
                r = upd_n(self, grid, *a, **k)
            err = float(((r.detach() - target).abs() / (target.abs() + 1e-9)).mean())
            st["k"] += 1
            asked = bool(st["called"]) and st["called"][0][0].shape == grid.shape and bool((st["called"][0][0] == grid).all())
            kern = self.neighborhood_layer.weight.shape == ca.neighborhood_layer.weight.shape and bool((self.neighborhood_layer.weight == ca.neighborhood_layer.weight).all())
            t.ev("step", err=min(int(err * 1e6), 10 ** 9), w=fp(self.state_dict()), newest=bool(st["nets"]) and self is st["nets"][-1], kernel=kern,
                 target=asked, grad=all(w.requires_grad for w in self.weights_layer.parameters()))
            return r

        def saver(obj, path, *a, **k):
            r = helper(obj, path, *a, **k)
            sd = torch.load(path, map_location="cpu")
            if not isinstance(sd, dict):
                raise ValueError("saved %s" % type(sd))
            kern = "neighborhood_layer.weight" not in sd or (sd["neighborhood_layer.weight"].shape == st["ca"].neighborhood_layer.weight.shape
                                                             and bool((sd["neighborhood_layer.weight"] == st["ca"].neighborhood_layer.weight).all()))
            name = os.path.relpath(path, LOGS)
            st["saved"][name] = fp(sd)
            t.ev("save", w=fp(sd), file=name, kernel=kern)
            return r
        kw = dict(ca_config=list(given) if many or R.random() < .5 else given[0], max_iterations=iterations, max_steps=steps, hidden_channels=start, max_hidden_channels=cap,
                  error_threshold=threshold / 1e6, save_name=save, batch_size=2, learning_rate=R.choice([1e-3, 1e-2]), verbose=R.choice([False, True]))
        mine = copy.deepcopy(kw)
        NCA.__init__, CCA.restore_config, NCA.update_helper, CCA.update_helper = new_net, restore, see_n, see_c
        torch.save = saver
        try:
            clone.clone_from_ca(**mine)
            left = []
            for f in sorted(set(os.listdir(LOGS)) - set(old)):
                sd = torch.load(os.path.join(LOGS, f), map_location="cpu")
                left.append(dict(name=f, intact=fp(sd) == st["saved"].get(f)))
            after = {x: open(os.path.join(CONFIGS, x), "rb").read() for x in sorted(os.listdir(CONFIGS)) if x.endswith(".npy")}
            t.ev("end", files=left, untouched=before == after, args=mine == kw)
        finally:
            NCA.__init__, CCA.restore_config = init_n, init_c
            for c, f in own:
                if f is None:
                    del c.update_helper
                else:
                    c.update_helper = f
            torch.save = helper
            for f in set(os.listdir(LOGS)) - set(old):
                os.remove(os.path.join(LOGS, f))
    out.guard("clone-%d" % n, go, head=dict(confs=names, files=files, iterations=iterations, steps=steps, start=start, cap=cap, threshold=threshold))


for n in range(36 if not THOROUGH else 400):
    run(n)
out.write()
