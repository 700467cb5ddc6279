"""Orchestration shared by all checks (plain Python 3, no third-party modules)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


# ------------------------------------------------------------------ TLC
class TLCResult:
    pass


def tlc(module, cfg, scratch, env=None, timeout=600, workers=8, extra=(), heap="3g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns a TLCResult."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    workers = int(os.environ.get("VERIF_WORKERS", workers))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(4, workers), "-Xmx" + heap, "-Xss64m", "-cp", JARS,
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as exc:
        raise MachineryError("TLC timed out after %ss on %s" % (timeout, module)) from exc
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.rc, r.out, r.wall, r.module, r.cfg = p.returncode, p.stdout, time.time() - t0, module, cfg
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    r.generated, r.distinct = (tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
    r.finished = "Model checking completed. No error has been found." in r.out \
        or "The number of states generated:" in r.out
    return r


def coverage(out):
    """{action: (distinct, total)} of the last -coverage report in TLC output"""
    cov = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        cov[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    return cov


# ------------------------------------------------------------------ driver
def run_driver(name, scratch, env=None, timeout=600, args=()):
    """Run drivers/<name> under the repo's interpreter against a scratch copy of
    the current working tree's package; returns the trace list and meta."""
    repo = os.path.join(scratch, "repo")
    if not os.path.exists(repo):
        os.makedirs(repo)
        shutil.copytree(os.path.join(REPO, "yuca"), os.path.join(repo, "yuca"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        for d in ("ca_configs", "data"):
            if os.path.isdir(os.path.join(REPO, d)):
                shutil.copytree(os.path.join(REPO, d), os.path.join(repo, d))
        for d in ("logs", "assets"):
            os.makedirs(os.path.join(repo, d), exist_ok=True)
    work = os.path.join(scratch, "work")
    os.makedirs(work, exist_ok=True)
    tf = os.path.join(scratch, os.path.splitext(name)[0] + ".traces.json")
    e = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "TMPDIR", "VERIF_DEBUG")}
    e.update(PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
             PYTHONPATH=repo + ":" + os.path.join(ROOT, "lib") + ":" + os.path.join(ROOT, "drivers"),
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             MPLCONFIGDIR=os.path.join(scratch, "mpl"),
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             VERIF_SEED=str(seed()), VERIF_TIER=tier(), VERIF_SCRATCH=scratch,
             VERIF_REPO_COPY=repo, TRACE_FILE=tf)
    e.update(env or {})
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(ROOT, "drivers", name), *args], cwd=work, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired as exc:
        raise MachineryError("driver %s timed out" % name) from exc
    if p.returncode != 0 or not os.path.exists(tf):
        # an import failure of the package itself is the code's fault
        last = [x for x in p.stdout.splitlines() if x.strip()][-1:] or ["?"]
        if re.search(r'File "%s/yuca/' % re.escape(repo), p.stdout) and "Traceback" in p.stdout:
            tr = [dict(id="import", ev=[dict(k="import", ok=False, exc=last[0])])]
            return tf, tr, dict(import_failed=last[0]), p.stdout
        raise MachineryError("driver %s failed (%s): %s" % (name, p.returncode, p.stdout[-3000:]))
    with open(tf) as f:
        traces = json.load(f)
    meta = {}
    if os.path.exists(tf + ".meta"):
        with open(tf + ".meta") as f:
            meta = json.load(f)
    return tf, traces, meta, p.stdout


def run_shards(name, scratch, env=None, timeout=600, shards=1):
    """run_driver in several processes, each on a copy of its own; the driver takes every SHARDS-th scenario"""
    if shards <= 1:
        return run_driver(name, scratch, env, timeout)
    with ThreadPoolExecutor(shards) as pool:
        parts = list(pool.map(lambda k: run_driver(name, os.path.join(scratch, "shard%d" % k),
                                                   dict(env or {}, SHARD=str(k), SHARDS=str(shards)), timeout), range(shards)))
    for p in parts:
        if p[2].get("import_failed"):
            return p
    traces = [t for p in parts for t in p[1]]
    tf = os.path.join(scratch, os.path.splitext(name)[0] + ".traces.json")
    with open(tf, "w") as f:
        json.dump(traces, f)
    meta = {}
    for p in parts:
        meta.update(p[2])
    return tf, traces, meta, "".join(p[3] for p in parts)


# ------------------------------------------------------------------ verdicts
REJ = re.compile(r'"?REJECT\|(.*?)\|(\d+)\|(.*?)\|(.*)', re.S)


def rejections(out):
    """REJECT tuples TLC printed: [(trace id, event index, kind, clauses)]"""
    res = {}
    for line in re.findall(r'"REJECT\|.*', out):
        m = REJ.match(line)
        if m:
            res[(m.group(1), int(m.group(2)))] = (m.group(3), m.group(4).rstrip('"'))
    return [(a, b, c, d) for (a, b), (c, d) in sorted(res.items())]


def uninterpretable(out, traces):
    """the event at which TLC could not evaluate the specification: values were
    recorded that are outside anything it gives a meaning to (not-a-number,
    numbers beyond its integers, missing parts)"""
    if "Error: " not in out or "The error occurred when TLC was evaluating" not in out and "is not a" not in out \
            and "Overflow" not in out:
        return None
    if any(x in out for x in ("Parsing or semantic analysis failed", "OutOfMemory", "StackOverflow")):
        return None
    tid = re.findall(r"^/\\ tid = (\d+)", out, re.M)
    at = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if not tid or not at or not 1 <= int(tid[-1]) <= len(traces):
        return None
    t, n = traces[int(tid[-1]) - 1], int(at[-1])
    why = re.findall(r"^Error: (.*)", out, re.M)
    return (t["id"], n, t["ev"][n - 1]["k"] if n <= len(t["ev"]) else "?", "uninterpretable: " + " ".join(why)[:200])


PORTION = 8_000_000        # bytes of recorded behaviour TLC reads at a time


def portions(traces, tf):
    """the traces, in as many files as TLC comfortably reads one after the other"""
    size = os.path.getsize(tf)
    if size <= PORTION or len(traces) < 2:
        yield traces, tf
        return
    per = max(1, len(traces) * PORTION // size)
    for k in range(0, len(traces), per):
        with open(tf + ".part", "w") as f:
            json.dump(traces[k:k + per], f)
        yield traces[k:k + per], tf + ".part"


def expected_states(traces, rej):
    at = {a: b for a, b, _, _ in rej}
    n = 0
    for t in traces:
        n += (at[t["id"]] + 1) if t["id"] in at else len(t["ev"]) + 1
    return n


def known_findings(pid):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def save_replay(pid, trace, rej, note=""):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    ev = trace.get("ev", [])
    cut = dict(trace)
    cut["ev"] = ev[: rej[1]]
    with open(path, "w") as f:
        json.dump(dict(property=pid, rejected_trace=rej[0], event=rej[1], kind=rej[2],
                       failed_clauses=rej[3], note=note, trace=cut), f)
    return os.path.relpath(path, ROOT)


def short(o, n=700):
    s = json.dumps(o)
    return s if len(s) <= n else s[:n] + "..."


def run_check(pid, plan):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        rc = _run(pid, plan, scratch, t0)
    except MachineryError as exc:
        print("ERROR property=%s %s" % (pid, exc))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _run(pid, plan, scratch, t0):
    states = transitions = validated = 0
    info, samples, viol, kinds, runs = [], [], [], {}, []
    known_hit = {}
    findings = known_findings(pid)

    # 1. the specification itself
    for mc in plan.get("mc", []):
        if mc.get("tier") and mc["tier"] != tier():
            continue
        r = tlc(mc["module"], mc["cfg"], scratch, timeout=mc.get("timeout", 600),
                extra=("-coverage", "1") if mc.get("coverage", True) else ())
        if not r.finished or r.rc != 0:
            raise MachineryError("model %s/%s: rc=%s\n%s" % (mc["module"], mc["cfg"], r.rc, r.out[-2500:]))
        cov = coverage(r.out)
        dead = [a for a in mc.get("actions", []) if cov.get(a, (0, 0))[1] == 0]
        if dead:
            raise MachineryError("model %s: actions never taken: %s" % (mc["cfg"], dead))
        if r.distinct < mc.get("min_states", 1):
            raise MachineryError("model %s: only %d states" % (mc["cfg"], r.distinct))
        states += r.distinct
        transitions += r.generated
        runs.append("%s/%s: %d distinct states, %.1fs" % (mc["module"], mc["cfg"], r.distinct, r.wall))

    # 2. scenarios generated by the specification
    env = {}
    for g in plan.get("gen", []):
        n = g["thorough"] if tier() == "thorough" else g["quick"]
        r = tlc(g["module"], g["cfg"], scratch, env=g.get("setenv"), timeout=g.get("timeout", 600), workers=1,
                extra=("-simulate", "num=%d" % n, "-depth", str(g["depth"]), "-seed", str(seed() * 7919 + 13)))
        if r.rc != 0:
            raise MachineryError("generator %s: rc=%s\n%s" % (g["module"], r.rc, r.out[-2500:]))
        path = os.path.join(scratch, g["module"] + ".scenarios")
        seen, keep = set(), []
        for line in re.findall(r'"SCENARIO\|(.*)"\s*$', r.out, re.M):
            line = line.replace('\\"', '"').replace("\\\\", "\\")
            if line not in seen:
                seen.add(line)
                keep.append(line)
        if len(keep) < g.get("min", 1):
            raise MachineryError("generator %s: %d scenarios" % (g["module"], len(keep)))
        with open(path, "w") as f:
            f.write("\n".join(keep))
        env[g["env"]] = path
        transitions += r.generated
        runs.append("%s: %d scenarios generated, %.1fs" % (g["module"], len(keep), r.wall))

    # 3. drive the real code, validate what it did
    for d in plan["drive"]:
        tf, traces, meta, log = run_shards(d["driver"], scratch, env=dict(env, **d.get("setenv", {})), timeout=d.get("timeout", 700),
                                           shards=d.get("shards", 1))
        if meta.get("import_failed"):
            viol.append((("import", 1, "import", meta["import_failed"]), traces[0]))
            continue
        ids = [t["id"] for t in traces]
        if len(set(ids)) != len(ids):
            raise MachineryError("duplicate trace ids in %s" % d["driver"])
        if len(traces) < d.get("min", 1):
            raise MachineryError("driver %s produced %d traces" % (d["driver"], len(traces)))
        rej, distinct, generated, wall, stuck = [], 0, 0, 0.0, None
        for part, ptf in portions(traces, tf):
            r = tlc(d["spec"], d.get("cfg", d["spec"] + ".cfg"), scratch, env={"TRACE_FILE": ptf},
                    timeout=d.get("tlc_timeout", 800))
            prej = rejections(r.out)
            wall += r.wall
            stuck = uninterpretable(r.out, part)
            if stuck is not None:
                viol.append((stuck, part[[t["id"] for t in part].index(stuck[0])]))
                runs.append("%s -> %s: stopped at recorded values the specification has no meaning for" % (d["driver"], d["spec"]))
                break
            if not r.finished or r.rc != 0:
                raise MachineryError("trace spec %s: rc=%s\n%s" % (d["spec"], r.rc, r.out[-2500:]))
            exp = expected_states(part, prej)
            if r.distinct != exp:
                raise MachineryError("trace spec %s: %d states, expected %d\n%s" % (d["spec"], r.distinct, exp, r.out[-1500:]))
            rej += prej
            distinct += r.distinct
            generated += r.generated
        if stuck is not None:
            continue
        byid = {t["id"]: t for t in traces}
        for t in traces:
            for e in t["ev"]:
                kinds[e["k"]] = kinds.get(e["k"], 0) + 1
        for x in rej:
            k = match_known(findings, x)
            if k is not None:
                known_hit.setdefault(k, []).append(x)
            else:
                viol.append((x, byid[x[0]]))
        states += distinct
        transitions += generated
        validated += len(traces) - len(rej)
        runs.append("%s -> %s: %d traces, %d events, %d rejected, %.1fs"
                    % (d["driver"], d["spec"], len(traces), sum(len(t["ev"]) for t in traces), len(rej), wall))
        step = max(1, len(traces) // 3)
        for t in traces[::step][:3]:
            samples.append(short(t))
        if meta:
            info.append(meta)
        # every event kind the plan names must have been exercised
        missing = [k for k in d.get("kinds", []) if not any(e["k"] == k for t in traces for e in t["ev"])]
        if missing and not viol:
            raise MachineryError("driver %s never produced %s" % (d["driver"], missing))

    for i, k in enumerate(findings):
        if i in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if viol:
        rc = 1
        x, t = viol[0]
        path = save_replay(pid, t, x)
        for y, _ in viol[:8]:
            print("rejected: trace %s event %d (%s): %s" % y)
        print("%d rejected trace(s)" % len(viol))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(property=pid, tier=tier(), seed=seed(), level="model_checking",
              coverage=dict(states=states, transitions=transitions,
                            traces_validated_against_impl=validated,
                            event_kinds=kinds, runs=runs, details=info, samples=samples),
              assumptions=plan.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for x in runs:
        print(x)
    print("%s %s in %.1fs: %d states, %d traces accepted" %
          (pid, "VIOLATED" if rc else "held", time.time() - t0, states, validated))
    return rc


def match_known(findings, rej):
    """index of the known finding that explains this rejection exactly, or None"""
    for i, k in enumerate(findings):
        if k.get("status") == "fixed":
            continue
        if re.fullmatch(k["trace"], rej[0]) and re.fullmatch(k["kind"], rej[2]) \
                and re.fullmatch(k["clauses"], rej[3]):
            return i
    return None
