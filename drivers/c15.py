"""Agents: generated histories (AgentGen) on the real CPPN, CPPNPlus and ParamsAgent,
and full-pattern probes of the envelope for every grid size and channel count."""
from harness import *
from yuca.cppn import CPPN, CPPNPlus
from yuca.params_agent import ParamsAgent
from yuca.utils import seed_all
from evolib import vid

out = Out()


def size(kind, ch, hid):
    return sum(p.size for p in [CPPN(external_channels=ch, hidden_dim=hid, dim=4).get_params()])


SIZES = {}


def nparams(ch, hid):
    if (ch, hid) not in SIZES:
        SIZES[ch, hid] = CPPN(external_channels=ch, hidden_dim=hid, dim=4).get_params().size
    return SIZES[ch, hid]


def cells(a, d, whole=False):
    if d > 12 and not whole:
        return [], []
    a = a[0]
    return qa(a, 1e6, 10 ** 9), qa(a.double() * 1e12, 1, 10 ** 9)


def scenario(i, ops):
    R = rng("c15", i)
    shapes = [(R.choice([1, 1, 2, 3, 4]), R.choice([4, 5, 8, 9, 16, 33]), R.choice([2, 4, 16])) for _ in range(2)]

    def go(t):
        seed_all(100 + i)
        pool, rules, table = {}, {}, {}
        nr = R.choice([1, 4, 8])
        for s, (ch, d, hid) in enumerate(shapes, 1):
            for v in (1, 2, 3):
                pool[s, v] = (np.array([R.gauss(0, .3) for _ in range(nparams(ch, hid))], dtype=np.float32)).astype(np.float64)
        for w in (1, 2, 3):
            rules[w] = np.array([R.choice([0, 1, -1, 150, -150, 5000, 10000, -10000, 10001, -23000, R.randint(-12000, 12000)]) for _ in range(nr)]) / 10000
        keep = {k: v.tobytes() for k, v in list(pool.items()) + list(rules.items())}
        ag, kind, shp = {}, {}, {}

        def parts(a, vec):
            vec = np.asarray(vec, dtype=np.float64).ravel()
            n = nparams(shapes[shp[a] - 1][0], shapes[shp[a] - 1][2]) if kind[a] != "rule" else 0
            return vid(table, vec[:n]) if n else 0, q(vec[n:], 10000), (0 if kind[a] != "cppn" else max(0, vec.size - n))

        def full(a, v, w):
            p = [] if kind[a] == "rule" else [pool[shp[a], v]]
            r = [] if kind[a] == "cppn" else [rules[w]]
            x = p + r
            return x[0] if len(x) == 1 else np.concatenate(x)

        for o in ops:
            a = o.get("a")
            if o["op"] == "new":
                kind[a], shp[a] = o["kind"], o["shape"]
                ch, d, hid = shapes[o["shape"] - 1]
                kw = dict(external_channels=ch, dim=d, hidden_dim=hid)
                if o["kind"] == "rule":
                    kw = dict(filter_params=o["filter"])
                    if o["w"] == 0:
                        kw.update(dict(num_params=nr) if R.random() < .7 else {})
                    else:
                        kw["ca_params" if o["ca"] else "params"] = rules[o["w"]]
                    ag[a] = ParamsAgent(**kw)
                    if o["w"] == 0:     # what it was born with, in round numbers
                        ag[a].set_params(np.round(np.array(ag[a].get_params()), 4))
                    rule = rules[o["w"]] if o["w"] else ag[a].get_params()
                    t.ev("new", a=a, kind="rule", shape=1, pat=0, rule=q(rule, 10000), filter=bool(o["filter"]))
                    continue
                if o["v"]:
                    kw["params"] = pool[o["shape"], o["v"]]
                    if o["kind"] == "plus" and o["w"] and not o["ca"]:
                        kw["params"] = np.concatenate([kw["params"], rules[o["w"]]])
                if o["kind"] == "plus" and o["w"] and (o["ca"] or not o["v"]):
                    kw["ca_params"] = rules[o["w"]]
                ag[a] = (CPPN if o["kind"] == "cppn" else CPPNPlus)(**kw)
                pat, rule, rest = parts(a, ag[a].get_params())
                if o["v"]:
                    pat = vid(table, pool[o["shape"], o["v"]])
                if o["kind"] == "plus":
                    if o["w"]:
                        rule = q(rules[o["w"]], 10000)
                    elif o["v"]:
                        rule = []           # a vector without a rule part
                t.ev("new", a=a, kind=o["kind"], shape=o["shape"], pat=pat, rule=rule if o["kind"] == "plus" else [], filter=False)
            elif o["op"] == "set":
                vec = full(a, o["v"], o["w"])
                ag[a].set_params(vec)
                pat, rule, _ = parts(a, vec)
                t.ev("set", a=a, pat=pat, rule=rule)
            elif o["op"] in ("get", "copy"):
                vec = ag[a].get_params()
                pat, rule, rest = parts(a, vec)
                t.ev("get", a=a, pat=pat, rule=rule, rest=rest)
                b = o.get("b")
                if b and (kind[a] == "rule" or shp[a] == shp[b]):
                    ag[b].set_params(vec)
                    t.ev("set", a=b, pat=pat, rule=rule)
            elif o["op"] == "act":
                pa = ra = None
                if kind[a] == "rule":
                    ra = ag[a].get_action()
                elif kind[a] == "cppn":
                    pa = ag[a].get_action()
                elif o["part"] == "both":
                    ra, pa = ag[a].get_action()
                elif o["part"] == "pattern":
                    pa = ag[a].get_pattern_action()
                else:
                    ra = ag[a].get_rule_action()
                kw = dict(haspat=pa is not None, hasrule=ra is not None, raction=q(ra, 10000) if ra is not None else [],
                          act=0, dims=[], lowest=0, cells=[], tiny=[])
                if pa is not None:
                    pa = pa.detach()
                    c, y = cells(pa, shapes[shp[a] - 1][1])
                    kw.update(act=vid(table, pa.double().numpy()), dims=list(pa.shape), lowest=int(np.sign(float(pa.min()))), cells=c, tiny=y)
                    if R.random() < .3:
                        pa *= 0.5               # the caller may do what it likes with its pattern
                t.ev("act", a=a, **kw)
            elif o["op"] == "noise":
                seed_all(o["n"])
                CPPN(external_channels=2, dim=6); ParamsAgent(num_params=3)
                t.ev("noise")
            elif o["op"] == "device":
                ag[a].to_device("cpu")
                t.ev("device", a=a)
        t.ev("pool", same=all(keep[k] == v.tobytes() for k, v in list(pool.items()) + list(rules.items())))
    out.guard("hist-%d" % i, go, head=dict(shapes=[dict(ch=c, d=d) for c, d, h in shapes]))


def probe(i, ch, d, cls):
    """every weight zero: the last layer says 1 on the chosen channels"""
    R = rng("c15p", i, ch, d)

    def go(t):
        hid = R.choice([2, 5])
        kw = dict(external_channels=ch, dim=d, hidden_dim=hid)
        a = cls(**kw)
        n = nparams(ch, hid)
        on = [R.random() < .7 for _ in range(ch)]
        on[R.randrange(ch)] = True
        v = np.zeros(n)
        # layers end with mu, sigma of their bump
        v[n - 1] = .125
        at = 0
        for layer in range(3):
            at += (16 * ch if layer == 0 else hid) * hid + hid
            v[at + 1] = .125
            at += 2
        for c in range(ch):
            v[n - 2 - ch + c] = 0.0 if on[c] else 4.0
        if cls is CPPNPlus:
            v = np.append(v, [.5, .25])
        a.set_params(v)
        if R.random() < .3:
            a = cls(params=v, **kw)
        p = (a.get_action() if cls is CPPN else a.get_action()[1]).detach()
        c, y = cells(p, d, True)
        t.ev("full", dims=list(p.shape), ch=ch, d=d, on=on, cells=c, tiny=y)
    out.guard("full-%d-ch%d-d%d-%s" % (i, ch, d, cls.__name__), go, head=dict(shapes=[]))


if __name__ == "__main__":
    with open(os.environ["AGENT_SCENARIOS"]) as f:
        for i, line in enumerate(x for x in f if x.strip()):
            scenario(i, json.loads(line))
    for d in (16, 27, 33):
        probe(0, 1, d, CPPN)
    for ch in (1, 2, 3, 4):
        for d in range(2, 13):
            for cls in (CPPN, CPPNPlus):
                probe(0, ch, d, cls)
    out.write()
