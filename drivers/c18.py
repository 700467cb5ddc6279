"""The front end: generated requests through evolve(), through the command line
(run as a script) and with the real search classes, recording what is started."""
from harness import *
import copy, runpy, subprocess
import yuca.cmaes as cmaes
import yuca.evolve as front
import yuca.cppn, yuca.params_agent

out = Out()
os.chdir(os.environ["VERIF_REPO_COPY"])
VALUES = {
    "activation": ["ReLU", "Tanh", "Gaussian"], "batch_size": [1, 7, 64], "ca_steps": [3, 100, 1024],
    "ca_config": [None, "orbium.npy", "some/where.npy"], "internal_channels": [1, 2, 5], "device": ["cpu", "cuda:0", "cuda"],
    "dt": [0.1, 0.3, 0.5], "selection_mode": [0, 1, 2], "generations": [1, 5, 32], "hidden_channels": [4, 16, 100],
    "input_filepath": [None, "logs/a.npy", "b.npy"], "kernel_radius": [2, 13, 31], "kernel_peaks": [1, 3, 4],
    "replicates": [1, 2, 8], "dim": [16, 64, 129], "population_size": [2, 16, 33], "prediction_mode": [0, 1, 2],
    "seed": [[1], [13, 2], [5, 6, 7]], "conv_mode": ["circular", "reflect", "zeros"], "workers": [0, 1, 4], "external_channels": [1, 3, 4]}
LIVE = dict(VALUES, device=["cpu"] * 3, ca_config=[None] * 3, input_filepath=[None] * 3, dim=[8, 12, 16], kernel_radius=[2, 3, 4],
            population_size=[2, 8, 11], batch_size=[1, 2, 3], ca_steps=[3, 4, 5], internal_channels=[1, 2, 3], hidden_channels=[4, 5, 6],
            external_channels=[1, 2, 3], conv_mode=["circular"] * 3)
FLAG = dict(activation="-a", batch_size="-b", ca_steps="-c", ca_fn="-ca", ca_config="-cc", internal_channels="-ch", device="-d", dt="-dt",
            dtype="-dtype", selection_mode="-e", env_fn="-f", generations="-g", hidden_channels="-hc", input_filepath="-i",
            kernel_radius="-k", kernel_peaks="-kp", replicates="-l", dim="-m", population_size="-p", prediction_mode="-r",
            seed="-s", tag="-t", conv_mode="-v", workers="-w", external_channels="-x")
REC = {}


def token(name, v, values):
    if name in ("tag", "dtype"):
        return str(v)
    for i, x in enumerate(values.get(name, []), 1):
        if type(x) == type(v) and x == v:
            return str(i)
    return "other"


def name_of(x):
    return getattr(x, "__name__", str(x))


CLASSES = [cmaes.CMAES, cmaes.CMACES]


class Patch:
    """stand-ins for building and searching, put on the classes themselves"""

    def __init__(self, live):
        self.live, self.depth = live, 0

    def __enter__(self):
        self.old = [(c, n, c.__dict__[n]) for c in CLASSES for n in ("__init__", "search") if n in c.__dict__]
        for c, n, f in self.old:
            setattr(c, n, self.init(f) if n == "__init__" else self.search)

    def __exit__(self, *a):
        for c, n, f in self.old:
            setattr(c, n, f)

    def init(self, f):
        def __init__(s, *a, **k):
            if self.depth == 0:
                REC["built"] += 1
                REC["kw"] = dict(k)
                REC["algorithm"] = type(s).__name__
                REC["precision"] = str(torch.get_default_dtype()).replace("torch.", "")
            if self.live:
                self.depth += 1
                try:
                    f(s, *a, **k)
                finally:
                    self.depth -= 1
        return __init__

    @property
    def search(self):
        def search(s, *a, **k):
            REC["searches"] += 1
            REC["self"] = s
        return search


# where a search or its parts keep an option
WHERE = {"ca_steps": lambda s: s.env.ca_steps, "batch_size": lambda s: s.env.batch_size, "dim": lambda s: s.env.dim,
         "generations": lambda s: s.generations, "population_size": lambda s: s.population_size,
         "selection_mode": lambda s: s.selection_mode, "seed": lambda s: s.my_seed, "replicates": lambda s: s.replicates,
         "workers": lambda s: s.workers, "internal_channels": lambda s: s.env.ca.internal_channels, "tag": lambda s: s.tag}


def request(t, o):
    way = o["way"]
    values = LIVE if way == "live" else VALUES
    opts = {n: copy.deepcopy(values[n][v - 1]) for n, v in o["options"].items()}
    if way == "live":   # keep the automata that are built small
        for n in ("kernel_radius", "dim", "population_size", "hidden_channels", "ca_steps", "batch_size"):
            opts.setdefault(n, LIVE[n][0])
        if o["ca"] == "RxnDfn":
            opts.pop("internal_channels", None)
    if way == "line":
        opts = {n: v for n, v in opts.items() if v is not None}
    kw = dict(opts, tag=o["tag"], ca_fn=o["ca"], env_fn=o["env"], dtype=o["dtype"])
    given = {n: token(n, v, values) for n, v in kw.items() if n not in ("ca_fn", "env_fn")}
    REC.clear()
    REC.update(built=0, searches=0, kw={}, algorithm="", precision="")
    raised, exc = False, ""
    try:
        with Patch(way == "live"), limit(60):
            if way == "line":
                argv = ["evolve.py"]
                for n in kw:
                    argv += [FLAG[n]] + ([str(x) for x in kw[n]] if isinstance(kw[n], list) else [str(kw[n])])
                oa, oc = sys.argv, subprocess.check_output
                subprocess.check_output = lambda *a, **k: b"0" * 40 + b"\n"
                sys.argv = argv
                try:
                    runpy.run_path(os.path.join("yuca", "evolve.py"), run_name="__main__")
                finally:
                    sys.argv, subprocess.check_output = oa, oc
            else:
                front.evolve(**copy.deepcopy(kw))
    except (Exception, SystemExit, Hang) as e:
        raised, exc = True, "%s: %s" % (type(e).__name__, str(e)[:120])
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    k = REC["kw"]
    e = dict(way=way, tag=o["tag"], ca=o["ca"], env=o["env"], dtype=o["dtype"], given=given, raised=raised,
             built=REC["built"], searches=REC["searches"], algorithm=REC["algorithm"], precision=REC["precision"],
             agent="", envc="", cac="", channels=0, got={"-": "-"}, gprecision="")
    if way == "live" and "self" in REC:
        s = REC["self"]
        e.update(agent=name_of(s.agent_fn), envc=type(s.env).__name__, cac=type(s.env.ca).__name__,
                 channels=int(s.env.ca.external_channels), got={n: token(n, f(s), values) for n, f in WHERE.items()})
        with quiet():
            g = s.env.ca(torch.rand(1, s.env.ca.external_channels, 16, 16))
        e["gprecision"] = str(g.dtype).replace("torch.", "")
    elif k:
        e.update(agent=name_of(k.get("agent_fn", yuca.params_agent.ParamsAgent)), envc=name_of(k.get("env_fn", "")),
                 cac=name_of(k.get("ca_fn", "")), channels=k.get("external_channels", 0) if isinstance(k.get("external_channels", 0), int) else -1,
                 got={n: (token(n, v, values) if n in VALUES or n in ("tag", "dtype") else name_of(v) if n.endswith("_fn") else "other") for n, v in k.items()})
    ev = t.ev("request", **e)
    ev["exc"] = exc


scen = [json.loads(x) for x in open(os.environ["FRONT_SCENARIOS"])]
for i, ops in enumerate(scen):
    def go(t):
        try:
            for o in ops:
                request(t, o)
        finally:
            torch.set_default_dtype(torch.float32)
    out.guard("requests-%d" % i, go)
out.write()
