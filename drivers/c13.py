"""C13: the real mantle and arms, run as cooperative threads over a stand-in for
MPI whose message timing follows schedules generated from YucaPar."""
from evolib import *
import pickle, threading, types

out = Out()
SF = 64
ANY = -1


class Stop(BaseException):
    pass


class World:
    """one thread per rank, one running at a time, chosen by the schedule"""

    def __init__(self, size, sched, sync, R):
        self.size, self.sched, self.sync, self.R = size, list(sched), sync, R
        self.box = {}                   # (src, dst) -> list of [payload, tag, taken]
        self.turn = threading.Semaphore(0)
        self.sem = [threading.Semaphore(0) for _ in range(size)]
        self.cond = [lambda: True] * size
        self.done = [False] * size
        self.err = [None] * size
        self.rng = [None] * size
        self.glob = [None] * size
        self.kill = False
        self.now = 0
        self.deadlock = False

    def me(self):
        return self.now

    def save(self, r):
        self.rng[r] = (np.random.get_state(), torch.get_rng_state())
        self.glob[r] = {k: getattr(cmaes, k) for k in ("rank", "num_worker") if hasattr(cmaes, k)}

    def load(self, r):
        if self.rng[r]:
            np.random.set_state(self.rng[r][0]); torch.set_rng_state(self.rng[r][1])
            for k, v in self.glob[r].items():
                setattr(cmaes, k, v)

    def wait(self, cond=lambda: True):
        r = self.now
        self.cond[r] = cond
        self.save(r)
        self.turn.release()
        self.sem[r].acquire()
        if self.kill:
            raise Stop()
        self.load(r)

    def body(self, r, fn):
        self.sem[r].acquire()
        try:
            if not self.kill:
                fn()
        except Stop:
            pass
        except BaseException as exc:          # noqa
            self.err[r] = exc
        self.done[r] = True
        self.turn.release()

    def run(self, fns):
        ths = [threading.Thread(target=self.body, args=(r, f), daemon=True) for r, f in enumerate(fns)]
        for th in ths:
            th.start()
        try:
            while not all(self.done):
                ready = [r for r in range(self.size) if not self.done[r] and self.cond[r]()]
                if not ready or any(self.err):
                    self.deadlock = not any(self.err)
                    break
                pick = None
                while self.sched:
                    p = self.sched.pop(0)
                    if p in ready:
                        pick = p
                        break
                if pick is None:
                    pick = self.R.choice(ready)
                self.now = pick
                self.sem[pick].release()
                self.turn.acquire()
        finally:
            self.kill = True
            self.alive = [r for r in range(self.size) if not self.done[r]]
            for r in self.alive:
                self.sem[r].release()

    # ---- the part of mpi4py's communicator a program may use
    def Get_size(self): return self.size
    def Get_rank(self): return self.now

    def send(self, obj, dest, tag=0):
        m = [pickle.dumps(obj), tag, False]
        self.wait()
        self.box.setdefault((self.now, dest), []).append(m)
        if self.sync:
            self.wait(lambda: m[2])

    ssend = send

    def isend(self, obj, dest, tag=0):
        self.box.setdefault((self.now, dest), []).append([pickle.dumps(obj), tag, False])
        return Req(self, lambda: True, lambda: None)

    def _find(self, dst, source, tag):
        for s in ([source] if source is not None and source >= 0 else range(self.size)):
            for m in self.box.get((s, dst), []):
                if tag in (None, ANY) or m[1] == tag:
                    return s, m
        return None

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        dst = self.now
        self.wait(lambda: self._find(dst, source, tag) is not None)
        got = [self._find(dst, source, tag)]
        if source is None or source < 0:        # any source: any pending sender may be first
            c = [x for x in (self._find(dst, s, tag) for s in range(self.size)) if x]
            got = [self.R.choice(c)]
        s, m = got[0]
        self.box[(s, dst)].remove(m)
        m[2] = True
        if status is not None:
            status.source, status.tag = s, m[1]
        return pickle.loads(m[0])

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Req(self, lambda: self._find(self.now, source, tag) is not None, lambda: self.recv(source=source, tag=tag))

    def iprobe(self, source=ANY, tag=ANY, status=None):
        self.wait()
        return self._find(self.now, source, tag) is not None

    def bcast(self, obj, root=0):
        if self.now == root:
            for r in range(self.size):
                if r != root:
                    self.isend(obj, r, tag=-7)
            return obj
        return self.recv(source=root, tag=-7)

    def scatter(self, objs, root=0):
        if self.now == root:
            for r in range(self.size):
                if r != root:
                    self.isend(objs[r], r, tag=-8)
            return objs[root]
        return self.recv(source=root, tag=-8)

    def gather(self, obj, root=0):
        if self.now != root:
            self.isend(obj, root, tag=-9)
            return None
        return [obj if r == root else self.recv(source=r, tag=-9) for r in range(self.size)]

    def Barrier(self):
        self.gather(0); self.bcast(0)
    barrier = Barrier


class Req:
    def __init__(self, w, cond, act):
        self.w, self.cond, self.act = w, cond, act

    def wait(self):
        self.w.wait(self.cond)
        return self.act()

    def test(self):
        self.w.wait()
        return (True, self.act()) if self.cond() else (False, None)


class Status:
    source = tag = 0
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag


def q64(x):
    return int(round(float(x) * SF))


def serial_calls(cm, seeds):
    """how a serial search on this build calls for an evaluation: {(seed place, generation): [(args, kwargs)...]}"""
    calls, where = {}, dict(s=-1, g=0)
    real, reset0 = cm.get_fitness, cm.reset

    def watched(*a, **k):
        calls.setdefault((where["s"], where["g"]), []).append((a, dict(k)))
        return real(*a, **k)

    def reset():
        where["s"] += 1
        where["g"] = 0
        return reset0()

    def over(f):
        def g(fitness, *a, **k):
            where["g"] += 1
            return f(fitness, *a, **k)
        return g
    cm.get_fitness, cm.reset = watched, reset
    cm.update_population, cm.rank_population = over(cm.update_population), over(cm.rank_population)
    cm.search()
    return calls


def serial_fitness(cm, calls, s, g, idx, default):
    """one evaluation, asked for as the serial search asks in that generation"""
    a, k = (calls.get((s, g)) or [((0,), default)])[0]
    got = calls.get((s, g), [])
    if idx < len(got):
        a, k = got[idx]
    a, k = list(a), dict(k)
    if a:
        a[0] = 0
    else:
        k["agent_index"] = 0
    return cm.get_fitness(*a, **k)


def scenario(i, sc):
    R = rng("c13", i)
    W = sc["arms"] + 1
    n = sc["pop"] if R.random() < .85 else R.choice([12, 16, 17, 24, 25])
    rounds = sc["rounds"]
    if rounds == 2 and R.random() < .4:
        seeds, gens = [R.randint(1, 40), R.randint(41, 99)], R.choice([1, 2])
    else:
        seeds, gens = [R.randint(1, 99)], rounds
    if R.random() < .07:
        gens, seeds = 9, seeds[:1]
    reps = R.choice([1, 1, 2])
    mode = R.choice([0, 0, 1, 2])
    kind = R.choice(["noisy", "hash", "noisy", "flat"])
    salt = R.randint(1, 9999)
    co = R.random() < .25

    def land(a, env):
        noise = int(torch.randint(0, 8, (1,)).item()) + int(np.random.randint(0, 4))
        if kind == "flat":
            return 0.25
        h = hashlib.sha1(np.asarray(a, dtype=np.float64).tobytes() + str(salt).encode()).digest()[0] % 64
        return (h - 32 + (noise if kind == "noisy" else 0)) / SF

    def build(workers):
        StubEnv.landscape = staticmethod(land)
        cm = cmaes.CMAES(env_fn=StubEnv, agent_fn=ParamsAgent, population_size=n, generations=gens, replicates=reps,
                         selection_mode=mode, seed=list(seeds), tag="universe c13", dim=8, workers=workers, ca_steps=77)
        cm.exp_id += "_p%d" % i
        return cm

    def go(t):
        np.random.seed(R.randint(0, 999)); torch.manual_seed(R.randint(0, 999))
        tab, serial = {}, build(0)
        first = build(0)
        first.exp_id += "_serial"
        keep = (np.random.get_state(), torch.get_rng_state())
        calls = serial_calls(first, seeds)
        np.random.set_state(keep[0]); torch.set_rng_state(keep[1])
        serial.population = [serial.agent_fn(params=np.zeros(3))]

        def alone(p, g, s, idx):
            """the fitness a serial evaluation gives these parameters in this generation"""
            keep = (np.random.get_state(), torch.get_rng_state())
            serial.population[0].set_params(np.array(p))
            serial.env.fps = []
            r = serial_fitness(serial, calls, s, g, idx, dict(steps=1, replicates=reps, seed=g * seeds[s]))
            np.random.set_state(keep[0]); torch.set_rng_state(keep[1])
            return r[0], [int(x) for x in serial.env.fps]
        w = World(W, sc["sched"], sc["sync"], R)
        old = (cmaes.comm, cmaes.MPI)
        cmaes.comm = w
        cmaes.MPI = types.SimpleNamespace(COMM_WORLD=w, ANY_SOURCE=ANY, ANY_TAG=ANY, Status=Status)
        os.environ["IN_MPI"] = "1"
        cms = [build(W) for _ in range(W)]
        for r in range(W):              # every process starts with its own generator state
            np.random.seed(R.randint(0, 9999)); torch.manual_seed(R.randint(0, 9999))
            w.now = r
            w.save(r)
        turn = dict(g=0, s=0)

        def rankwatch(r, cm):
            real = cm.get_fitness

            def watched(idx, *a, **k):
                w.wait()
                env = cm.env
                env.rewards, env.fps, env.actions, env.budgets = [], [], [], []
                p = np.array(cm.population[idx].get_params(), dtype=np.float64)
                res = real(idx, *a, **k)
                t.ev("eval", rank=r, id=vid(tab, p), aid=vid(tab, env.actions[0]) if env.actions else 0,
                     reps=len(env.rewards), budget=list(env.budgets), fp=[int(x) for x in env.fps],
                     want=alone(p, turn["g"], turn["s"], idx)[1], fit=q1(res[0], SF * reps))
                w.wait()
                return res
            cm.get_fitness = watched
        for r, cm in enumerate(cms):
            rankwatch(r, cm)
        m = cms[0]

        def collect(real):
            def f(fitness, *a, **k):
                ps = [np.array(x.get_params(), dtype=np.float64) for x in m.population]
                t.ev("collect", ids=[vid(tab, p) for p in ps], fit=[q1(x, SF * reps) for x in fitness],
                     sfit=[q1(alone(p, turn["g"], turn["s"], j)[0], SF * reps) for j, p in enumerate(ps)])
                turn["g"] += 1
                r = real(fitness, *a, **k)
                return r
            return f
        m.update_population = collect(m.update_population)
        m.rank_population = collect(m.rank_population)
        np_save = np.save

        def saved(path, *a, **k):         # a log file per seed: the generations of the next seed start over
            r = np_save(path, *a, **k)
            return r
        # generation count restarts with every seed
        reset0 = m.reset

        def reset():
            if turn["g"]:
                turn["s"] += 1
                turn["g"] = 0
            return reset0()
        m.reset = reset
        try:
            w.run([cm.search for cm in cms])
        finally:
            cmaes.comm, cmaes.MPI = old
            os.environ.pop("IN_MPI", None)
        for r, e in enumerate(w.err):
            if e is not None:
                t.fail("rank%d" % r, e)
                return
        t.ev("end", deadlock=w.deadlock, alive=w.alive, unread=sum(len(b) for b in w.box.values()))
        c = 0
        for s in seeds:
            lg = np.load("./logs/%s_seed%s.npy" % (m.exp_id, s), allow_pickle=True).reshape(1)[0]
            for g in range(len(lg["mean_fitness"])):
                c += 1
                t.ev("log", i=c, mean=q1(lg["mean_fitness"][g], SF * reps * 16, tol=.6), max=q1(lg["max_fitness"][g], SF * reps),
                     min=q1(lg["min_fitness"][g], SF * reps), eids=[vid(tab, p) for p in lg["elite_params"][g]])
        t.ev("logs", n=c)
    out.guard("par-%d-w%d-n%d%s" % (i, W, n, "-sync" if sc["sync"] else ""), go,
              head=dict(n=n, w=sc["arms"], reps=reps, mode=mode), seconds=120)


def launch(i):
    """the first process starts the others and does nothing itself"""
    R = rng("c13launch", i)
    workers = R.choice([0, 1, 2, 3, 4, 8])

    def go(t):
        StubEnv.landscape = staticmethod(lambda a, env: 0.25)
        cm = cmaes.CMAES(env_fn=StubEnv, agent_fn=ParamsAgent, population_size=3, generations=1, replicates=1,
                         seed=[1], tag="universe launch", dim=8, workers=workers)
        cm.exp_id += "_l%d" % i
        calls, exits = [], []

        class Exit(BaseException):
            pass

        def check_call(args, env=None, **k):
            calls.append(([str(a) for a in args], dict(env if env is not None else os.environ)))
            return 0

        def run(args, env=None, **k):
            check_call(args, env)
            return types.SimpleNamespace(returncode=0)

        def exit_(code=0):
            exits.append(code)
            raise Exit()
        real = (cmaes.subprocess, os._exit)
        cmaes.subprocess = types.SimpleNamespace(check_call=check_call, call=check_call, run=run, check_output=check_call)
        os._exit = exit_
        os.environ.pop("IN_MPI", None)
        try:
            cm.search()
        except (Exit, SystemExit):
            exits = exits or [0]
        finally:
            cmaes.subprocess, os._exit = real
        a = calls[0][0] if calls else []
        t.ev("launch", workers=workers, launched=len(calls), evals=len(cm.env.rewards), exited=len(exits),
             np=int(a[a.index("-np") + 1]) if "-np" in a else int(a[a.index("-n") + 1]) if "-n" in a else 0,
             same=bool(calls) and all(x in a for x in sys.argv) and sys.executable in a,
             marked=bool(calls) and "IN_MPI" in calls[0][1], inmpi="IN_MPI" in os.environ)
    out.guard("launch-%d-w%d" % (i, workers), go, head=dict(n=3, w=0, reps=1, mode=0))


def real(i):
    """the real wrappers and automata in the arms"""
    from yuca.ca.continuous import CCA
    from yuca.code import CODE
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    R = rng("c13real", i)
    W, n = R.choice([(2, 2), (3, 3), (2, 3)])
    env = [SimpleHaltingWrapper, HaltingWrapper][i % 2]
    cf = R.choice([CCA, CODE])
    seed = R.randint(1, 99)

    def build(workers):
        cm = cmaes.CMAES(env_fn=env, ca_fn=cf, agent_fn=ParamsAgent, population_size=n, generations=1, replicates=1,
                         seed=[seed], tag="universe preal", dim=16, kernel_radius=2, ca_steps=2, batch_size=2,
                         num_blocks=2, workers=workers)
        cm.exp_id += "_pr%d" % i
        return cm

    def go(t):
        np.random.seed(1); torch.manual_seed(1)
        cfgca = None
        w = World(W, [], i % 2 == 0, R)
        old = (cmaes.comm, cmaes.MPI)
        cmaes.comm = w
        os.environ["IN_MPI"] = "1"
        base = build(0)
        cfg = base.env.ca.make_config()
        cms = [build(W) for _ in range(W)]
        ser, first = build(0), build(0)
        first.exp_id += "_serial"
        for cm in cms + [ser, first]:
            cm.save_gif = silent_gif
            cm.env.ca.load_config(cfg)          # one automaton, as with a configuration file
        ser.env.ca.no_grad()
        for r in range(W):
            w.now = r
            w.save(r)
        os.environ.pop("IN_MPI", None)
        calls = serial_calls(first, [seed])
        os.environ["IN_MPI"] = "1"
        fits = []
        m = cms[0]
        rank0 = m.rank_population

        def rank(fitness, *a, **k):
            fits.append(([1.0 * np.array(x.get_params()) for x in m.population], list(fitness)))
            return rank0(fitness, *a, **k)
        m.rank_population = rank
        try:
            w.run([cm.search for cm in cms])
        finally:
            cmaes.comm, cmaes.MPI = old
            os.environ.pop("IN_MPI", None)
        for r, e in enumerate(w.err):
            if e is not None:
                t.fail("rank%d" % r, e)
                return
        t.ev("end", deadlock=w.deadlock, alive=w.alive, unread=sum(len(b) for b in w.box.values()))
        ps, f = fits[0]
        sf = []
        for j, p in enumerate(ps):
            ser.population = [ser.agent_fn(params=p)]
            sf.append(serial_fitness(ser, calls, 0, 0, j, dict(steps=1, replicates=1, seed=0))[0])
        t.ev("real", fit=[qa(float(x), 4096) for x in f], sfit=[qa(float(x), 4096) for x in sf])
    out.guard("real-%d-w%d-n%d" % (i, W, n), go, head=dict(n=n, w=W - 1, reps=1, mode=0), seconds=200)


if __name__ == "__main__":
    os.chdir(os.environ["VERIF_REPO_COPY"])
    with open(os.environ["PAR_SCENARIOS"]) as f:
        scs = [json.loads(x) for x in f if x.strip()]
    for i, sc in enumerate(scs):
        scenario(i, sc)
    for i in range(20 if THOROUGH else 8):
        launch(i)
    for i in range(12 if THOROUGH else 4):
        real(i)
    out.write()
