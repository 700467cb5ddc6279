#!/usr/bin/env python3
"""Mutation run: small source changes of the code under test, each given to the
checks of the properties anchored there; what no check notices is listed.
usage: mutate.py FRACTION SEED JOBS OUT [FILE[:FUNC-REGEX] ...]"""
import ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
# file -> [(function regex, properties in order)]
MAP = {
    "yuca/ca/common.py": [(r"load_config|save_config|make_config|save_|restore", "C05 C06"), (r"get_frame", "C03 C01"), (r".*", "C05 C03 C04 C06 C01")],
    "yuca/ca/continuous.py": [(r"set_params|get_params|include_parameters|add_random|initialize", "C04 C05 C06"),
                              (r".*config|restore|save", "C05 C06 C04"), (r"forward|update|id_conv|neigh|genesis|persist|step", "C01 C03 C02 C04"), (r".*", "C05 C04 C06 C01 C03 C11")],
    "yuca/ca/neural.py": [(r".*", "C08 C03 C04 C05")],
    "yuca/ca/reaction_diffusion.py": [(r".*", "C07 C04 C05 C06 C03")],
    "yuca/code.py": [(r".*", "C21 C04 C05 C06 C03")],
    "yuca/configs.py": [(r".*", "C05 C02 C04")],
    "yuca/activations.py": [(r".*", "C10 C05 C04")],
    "yuca/kernels.py": [(r".*", "C09")],
    "yuca/lenia.py": [(r".*", "C21 C04 C06")], "yuca/metaca.py": [(r".*", "C21 C03")], "yuca/random_step_ca.py": [(r".*", "C21 C03")],
    "yuca/cmaes.py": [(r"mantle|search", "C12 C13 C11"), (r"arm|mpi", "C13"), (r"get_fitness", "C12 C13 C14"), (r"update|rank|reset|initialize", "C11 C12"), (r".*", "C12 C11 C13")],
    "yuca/cppn.py": [(r".*", "C15 C12")], "yuca/params_agent.py": [(r".*", "C15 C11")],
    "yuca/evolve.py": [(r".*", "C18")],
    "yuca/wrappers/glider_wrapper.py": [(r".*", "C14")], "yuca/wrappers/halting_wrapper.py": [(r".*", "C14")], "yuca/wrappers/random_wrapper.py": [(r".*", "C14")],
    "yuca/zoo/librarian.py": [(r".*", "C16")],
    "yuca/plot.py": [(r".*", "C17")],
    "yuca/utils.py": [(r"save_fig|plot|get_", "C17 C20"), (r"seed", "C20 C12"), (r"mask|bite|aperture|train|prep", "C20"), (r".*", "C20 C17 C18 C22")],
    "yuca/analyze.py": [(r".*", "C19")],
    "yuca/clone.py": [(r".*", "C22 C20")],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    tree = ast.parse(src)
    out = []

    def add(n, new, what, func):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append(dict(file=path, line=n.lineno, func=func, what=what, old=b[s:e].decode(), new=new, span=(s, e)))

    def walk(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = (func + "." if func else "") + n.name
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in seg(n.test):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and seg(n.value).startswith(("print(", "plt.", "tqdm")):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert, ast.JoinedStr)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp", func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, "((%s) %s (%s))" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin", func)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "bool", func)
            elif isinstance(v, int):
                add(n, str(v + 1), "int", func)
            elif isinstance(v, float):
                add(n, repr(v * 1.5 + (0.5 if v == 0 else 0)), "float", func)
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "boolop", func)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(%s)" % seg(n.operand), "unary", func)
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, "(not (%s))" % seg(n.test), "negate", func)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and func:
            add(n, "pass", "del", func)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del", func)
        if isinstance(n, ast.Call) and n.keywords and not seg(n.func).startswith(("plt", "parser", "ax")):
            for k in n.keywords:
                if k.arg:
                    s, e = pos(n)
                    parts = [seg(a) for a in n.args] + [("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords if q is not k]
                    add(n, "%s(%s)" % (seg(n.func), ", ".join(parts)), "dropkw " + k.arg, func)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and seg(n.func) != "print":
            a = [seg(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            add(n, "%s(%s)" % (seg(n.func), ", ".join(a + [("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords])), "swap", func)
        for c in ast.iter_child_nodes(n):
            walk(c, func)
    walk(tree, "")
    return out


def props(m):
    for rx, ps in MAP[m["file"]]:
        if re.search(rx, m["func"].split(".")[-1] if m["func"] else "module"):
            return ps.split()
    return []


RUN = """
import sys, os
sys.path.insert(0, %r)
import vlib, plans
p = dict(plans.PLANS[sys.argv[1]], mc=[])
sys.exit(vlib.run_check(sys.argv[1], p))
"""


def judge(m):
    d = tempfile.mkdtemp(prefix="mutrun_", dir="/tmp/m")
    try:
        for s in ("yuca", "ca_configs"):
            shutil.copytree(os.path.join(REPO, s), os.path.join(d, s), ignore=shutil.ignore_patterns("__pycache__"))
        f = os.path.join(d, m["file"])
        b = open(f, "rb").read()
        s, e = m["span"]
        b = b[:s] + m["new"].encode() + b[e:]
        try:
            compile(b, f, "exec")
        except SyntaxError:
            return m, "syntax", []
        open(f, "wb").write(b)
        errs = []
        for p in props(m):
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d, TMPDIR=d, VERIF_WORKERS="3", VERIF_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
            try:
                r = subprocess.Popen([sys.executable, "-c", RUN % os.path.join(HERE, "lib"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                o, _ = r.communicate(timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc, o = 3, "timeout"
            finally:
                try:
                    os.killpg(r.pid, 9)
                except OSError:
                    pass
            if rc == 1:
                c = re.findall(r"rejected: (.*)", o)[:1]
                return m, "killed " + p, c
            if rc != 0:
                errs.append(p + ": " + o.strip()[-300:])
        return m, ("error" if errs else "SURVIVED"), errs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    frac, sd, jobs, outf = float(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sel = sys.argv[5:]
    ms = []
    for f in MAP:
        for m in mutants(f):
            if sel and not any(f == s.split(":")[0] and (":" not in s or re.search(s.split(":")[1], m["func"])) for s in sel):
                continue
            ms.append(m)
    R = random.Random(sd)
    pick = [m for m in ms if R.random() < frac]
    R.shuffle(pick)
    print(len(ms), "mutants,", len(pick), "picked", flush=True)
    if jobs == 0:
        return
    n = {}
    with open(outf, "w") as o, cf.ThreadPoolExecutor(jobs) as ex:
        for fu in cf.as_completed([ex.submit(judge, m) for m in pick]):
            m, v, more = fu.result()
            n[v.split()[0]] = n.get(v.split()[0], 0) + 1
            o.write(json.dumps(dict(verdict=v, file=m["file"], line=m["line"], func=m["func"], what=m["what"], old=m["old"], new=m["new"], more=more, span=m["span"])) + "\n")
            o.flush()
    print(n)


main()
