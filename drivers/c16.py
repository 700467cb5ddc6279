"""The pattern zoo: generated histories (ZooGen) on the real librarian in a scratch
directory; after every operation the whole shelf is read back."""
from harness import *
import shutil, tempfile
from yuca.zoo.librarian import Librarian

out = Out()
BASES = [".dot", "a", "a0", "a00", "a1", "frog", "Frog", "my.pat", "csv_glider", "x.py", "gol.ipynb", "__pycache__x", "b pattern", "npy", "p.npy", "100", "z-9"]
TEXTS = ["s613.npy", "orbium, unicaudatus", "two\nlines", "", " leading", "trailing ", 'say "so"', "a,b,c", "None", "x" * 300,
         "python yuca/evolve.py -b 1 -c 512, -s 1 3 5", "tab\tand ; semicolon", "ca_config,other.npy", "notes, none", "1.50", "é", "'"]


def codes(s):
    return [ord(c) for c in s]


def array(R, k):
    shape = [(3, 4), (1, 1, 5, 4), (2, 3, 4), (1, 3, 4, 5)][k]
    n = int(np.prod(shape))
    dt = R.choice([np.float32, np.float64, np.uint8, np.int64])
    a = np.array([R.randint(0, 200) for _ in range(n)]).reshape(shape).astype(dt)
    return a / 256 if dt in (np.float32, np.float64) else a


def aid(table, a):
    a = np.asarray(a)
    return table.setdefault((str(a.dtype), a.shape, a.tobytes()), len(table) + 1)


def scenario(i, ops, lib_dir=None):
    R = rng("c16", i)
    bases = R.sample(BASES, 4)
    if R.random() < .4:
        bases[:3] = ["a", "a0", "a00"]

    def go(t):
        d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        table = {}
        arrays = [array(R, k) for k in range(4)]
        metas = [[R.choice(TEXTS) for _ in range(4)] for _ in range(8)]
        quiet_lib = Librarian(directory=d, verbose=False)

        def content(pat, meta):
            return [str(aid(table, pat))] + [str(meta[k]) for k in ("ca_config", "entry_point", "commit_hash", "notes")]

        def shelf():
            es = []
            for f in sorted(os.listdir(d)):
                if f.endswith(".npy"):
                    es.append(dict(name=codes(f[:-4]), content=content(*quiet_lib.load(f[:-4]))))
            return es
        lib = Librarian(directory=d, verbose=R.random() < .5)
        t.ev("open", entries=shelf())
        try:
            for o in ops:
                if o["op"] == "store":
                    a, m = arrays[o["arr"] - 1], metas[o["meta"] - 1]
                    lib.verbose = o["verbose"]
                    kw, want = {}, ["unspecified", "not specified", "not_specified", "None"]
                    if o["how"] in (0, 2):
                        kw["config_name"] = want[0] = m[0]
                    if o["how"] == 1:
                        kw["ca_config"] = want[0] = m[0]
                    if o["how"] < 3:
                        kw.update(entry_point=m[1], commit_hash=m[2], notes=m[3])
                        want[1:] = m[1:]
                    before = aid(table, a)
                    lib.store(a, bases[o["base"] - 1], **kw)
                    t.ev("store", base=codes(bases[o["base"] - 1]), content=[str(before)] + want, entries=shelf(), same=aid(table, a) == before)
                elif o["op"] == "load":
                    names = sorted(f[:-4] for f in os.listdir(d) if f.endswith(".npy"))
                    name = names[(o["entry"] - 1) % len(names)]
                    got = lib.load(name)
                    t.ev("load", name=codes(name), content=content(*got), entries=shelf())
                elif o["op"] == "index":
                    if o["fresh"]:
                        lib = Librarian(directory=d, verbose=R.random() < .5)
                    lib.update_index()
                    t.ev("index", index=[codes(x) for x in lib.index], entries=shelf())
                elif o["op"] == "stranger":
                    k = ["README.md", "script.py", "book.ipynb", "table.csv", "__pycache__", ".hidden"][o["kind"] - 1]
                    p = os.path.join(d, k)
                    os.makedirs(p, exist_ok=True) if k == "__pycache__" else open(p, "w").close()
                    t.ev("stranger", entries=shelf())
                elif o["op"] == "crop":
                    a = arrays[o["arr"] - 1]
                    sc = 256 if a.dtype.kind == "f" else 1
                    as_t = R.random() < .3
                    src = torch.tensor(a.astype(np.float64)) if as_t else a
                    before = aid(table, np.asarray(src))
                    got = lib.crop(src, (o["a"], o["b"]), (o["c"], o["d"]))
                    g = np.asarray(got)
                    pages = q(a.reshape(-1, *a.shape[-2:]), sc)
                    e = dict(pages=pages, got=q(g.reshape((-1,) + g.shape[-2:]), sc) if g.size else [[] for _ in pages], empty=g.size == 0 and g.shape[:-2] == a.shape[:-2])
                    got *= 0
                    t.ev("crop", a=o["a"], b=o["b"], c=o["c"], d=o["d"], same=aid(table, np.asarray(src)) == before, **e)
        finally:
            shutil.rmtree(d)
    out.guard("zoo-%d" % i, go)


def many():
    """more than ten and more than a hundred entries under one name"""
    def go(t):
        d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        lib = Librarian(directory=d, verbose=False)
        table = {}

        def shelf():
            es = []
            for f in sorted(os.listdir(d)):
                if f.endswith(".npy"):
                    p, m = lib.load(f[:-4])
                    es.append(dict(name=codes(f[:-4]), content=[str(aid(table, p))] + [str(m[k]) for k in ("ca_config", "entry_point", "commit_hash", "notes")]))
            return es
        n = 120 if THOROUGH else 13
        for k in range(n):
            a = np.array([[float(k)]])
            lib.store(a, "glider", config_name="c%d" % k)
            t.ev("store", base=codes("glider"), content=[str(aid(table, a)), "c%d" % k, "not specified", "not_specified", "None"], entries=shelf(), same=True)
        lib.update_index()
        t.ev("index", index=[codes(x) for x in lib.index], entries=shelf())
        # the thousandth and later
        for k in range(n, 1000):
            np.save(os.path.join(d, "glider%03d.npy" % k), np.array([[float(k)]]))
        for k in range(2):
            with quiet():
                lib.store(np.array([[-1.0 - k]]), "glider")
        got = sorted(f for f in os.listdir(d) if f.startswith("glider1") and f.endswith(".npy") and len(f) == 14)
        t.ev("legacy", content=[codes(x) for x in got] + [[int(np.load(os.path.join(d, x))[0, 0]) for x in got]],
             want=[codes("glider1000.npy"), codes("glider1001.npy"), [-1, -2]])
        shutil.rmtree(d)
    out.guard("many", go, seconds=120)


def legacy():
    """entries written before metadata was quoted stay readable"""
    def go(t):
        d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        lib = Librarian(directory=d, verbose=False)
        for k, (text, want) in enumerate([
                ("ca_config,s613.npy\ncommit_hash,abc\nnotes, plain\nentry_point,python x.py -b 1", ["s613.npy", "python x.py -b 1", "abc", "plain"]),
                ("ca_config,s613.npy", ["s613.npy", None, None, None]),
                ("ca_config,s613.npy\ncommit_hash,abc\n", ["s613.npy", None, "abc", None])]):
            np.save(os.path.join(d, "old%d.npy" % k), np.array([[1.0]]))
            with open(os.path.join(d, "old%d.csv" % k), "w") as f:
                f.write(text)
            p, m = lib.load("old%d" % k)
            got = [str(m[x]).strip() for x in ("ca_config", "entry_point", "commit_hash", "notes")]
            t.ev("legacy", content=got, want=[g if w is None else w for g, w in zip(got, want)])
        shutil.rmtree(d)
    out.guard("legacy", go)


def shipped():
    """the zoo that comes with the library"""
    def go(t):
        d = os.path.join(os.environ["VERIF_REPO_COPY"], "yuca", "zoo")
        lib = Librarian(verbose=False)
        table = {}
        es = []
        for f in sorted(os.listdir(d)):
            if f.endswith(".npy"):
                p, m = lib.load(f[:-4])
                raw = open(os.path.join(d, f[:-4] + ".csv")).read().split("\n")[0].split(",")[1]
                es.append(dict(name=codes(f[:-4]), content=[str(aid(table, np.load(os.path.join(d, f)))), raw]))
                t.ev("legacy", content=[str(aid(table, p)), m["ca_config"].strip()], want=es[-1]["content"])
        t.ev("shipped", entries=es)
        t.ev("index", index=[codes(x) for x in Librarian(verbose=False).index], entries=es)
    out.guard("shipped", go)


if __name__ == "__main__":
    with open(os.environ["ZOO_SCENARIOS"]) as f:
        for i, line in enumerate(x for x in f if x.strip()):
            scenario(i, json.loads(line))
    many()
    legacy()
    shipped()
    out.write()
