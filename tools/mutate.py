"""mutate.py: development aid (no registered check uses it).  Plants small source mutations one after another in a scratch copy
of /repo and runs the quick shards of the relevant checks against it, cheapest first, until one reports a violation.
usage: mutate.py OUT.jsonl [--files a,b] [--every n] [--offset k] [--jobs n]"""
import argparse, ast, json, multiprocessing as mp, os, random, shutil, sys, time

CORE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C22"
REL = {"controller.py": "C09 C06 C08 C13 C22 C07", "constraint.py": "C18 C10 C11 C15 C13 C12 C05 C14", "state.py": "C20",
       "rta/base.py": "C04 C01 C02 C03 C15 C16 C17 C08 C22 C20", "rta/asif.py": "C10 C11 C12 C13 C14 C15 C16 C09 C01 C04 C22",
       "rta/simplex.py": "C05 C06 C07 C09 C08 C16 C02 C15", "utils/utils.py": "C19 C03 C11 C20 C10 C16", "utils/sample_testing.py": "C23",
       "zoo/cwh/random_sample_testing.py": "C23", "zoo/cwh/utils.py": "C20 C19 C14", "zoo/integrators/integrator_1d.py": "C20 C19 C21 C05 C06 C13 C01",
       "zoo/cwh/docking_2d.py": "C20 C19 C21 C05 C06 C10 C01", "zoo/cwh/docking_3d.py": "C20 C19 C21 C05 C06 C10 C01",
       "zoo/cwh/inspection_1v1.py": "C20 C19 C24 C10 C14 C17 C21 C04 C15", "zoo/cwh/inspection_3d.py": "C20 C19 C17 C10 C21 C15"}


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.lines, self.out, self.stack = src, src.splitlines(keepends=True), [], []
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l))

    def pos(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.pos(n)
        return self.src[a:b]

    def add(self, n, new, kind):
        a, b = self.pos(n)
        if self.src[a:b] != new:
            self.out.append((a, b, new, kind, n.lineno, ".".join(self.stack)))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.stack.pop()

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Raise(self, n):
        self.add(n, "pass", "noraise")

    def visit_Assert(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and self.stack:
            s = self.seg(n)
            if not s.startswith(("super()", "print", "warnings")):
                self.add(n, "pass", "dropcall")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(self.stack) > 1 and self.stack[-1] != "__init__" and isinstance(n.targets[0], ast.Attribute):
            self.add(n, "pass", "dropassign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "dropaug")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, "not (%s)" % self.seg(n.test), "negif")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "(%s)" % self.seg(n.body), "ifexp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            self.add(n, "(%s)" % self.seg(v), "boolop")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r, o = self.seg(n.left), self.seg(n.comparators[0]), type(n.ops[0]).__name__
            alt = {"Lt": ["<=", ">"], "LtE": ["<"], "Gt": [">="], "GtE": [">"], "Eq": ["!="], "NotEq": ["=="]}.get(o, [])
            for a in alt:
                self.add(n, f"{l} {a} {r}", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        l, r, o = self.seg(n.left), self.seg(n.right), type(n.op).__name__
        alt = {"Add": ["-"], "Sub": ["+"], "Mult": ["/"], "Div": ["*"], "Pow": ["*"], "MatMult": [], "FloorDiv": ["/"]}.get(o, [])
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for a in alt:
                self.add(n, f"({l} {a} {r})", "binop")
            if o in ("Add", "Sub"):
                self.add(n, f"({l})", "dropterm")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.USub):
            self.add(n, "(%s)" % self.seg(n.operand), "neg")
        elif isinstance(n.op, ast.Not):
            self.add(n, "(%s)" % self.seg(n.operand), "not")
        if not isinstance(n.operand, ast.Constant):
            self.generic_visit(n)

    def visit_Subscript(self, n):
        self.visit(n.value)
        self.visit(n.slice)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.25 + (0.05 if v == 0 else 0)), "const")

    def visit_Call(self, n):
        f = self.seg(n.func)
        for a, b in (("min", "max"), ("max", "min"), ("minimum", "maximum"), ("cos", "sin"), ("sin", "cos")):
            if f.split(".")[-1] == a:
                self.add(n.func, ".".join(f.split(".")[:-1] + [b]), "func")
        for k in n.keywords:
            if k.arg and isinstance(k.value, (ast.Name, ast.Attribute)) and self.seg(k.value).split(".")[-1] == k.arg and self.stack and f != "super().__init__":
                pass
        if f.endswith((".copy", "deepcopy", "np.copy")) and n.args:
            self.add(n, self.seg(n.args[0]), "nocopy")
        self.generic_visit(n)


def sites(path):
    src = open(path).read()
    v = Sites(src)
    v.visit(ast.parse(src))
    return src, v.out


def shardlist(root, checks, ev):
    import importlib
    sys.path.insert(0, root + "/verif"); sys.path.insert(0, root + "/repo")
    out = []
    for rank, c in enumerate(checks):
        mod = importlib.import_module("mc.checks." + c.lower())
        walls = []
        p = f"{ev}/{c}.json"
        if os.path.exists(p):
            walls = [w for _, w in json.load(open(p))["coverage"].get("shard_wall_s", [])]
        for i, (f, k) in enumerate(mod.shards("quick")):
            out.append((c, (c.lower(), f, k), walls[i] if i < len(walls) and len(walls) == len(mod.shards("quick")) else 8.))
    return out


def work(arg):
    root, sh = arg
    sys.path[:0] = [root + "/verif"]
    os.chdir(root + "/verif")
    from mc import core
    return sh[0], core.run_shard(sh[1])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--files"); ap.add_argument("--every", type=int, default=1); ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--list", action="store_true"); ap.add_argument("--ev", default="/verif/evidence")
    ap.add_argument("--budget", type=float, default=500.); ap.add_argument("--skip")
    a = ap.parse_args()
    done = {(r["file"], r["line"], r["old"], r["new"]) for r in map(json.loads, open(a.skip))} if a.skip else set()
    root = f"/tmp/mut.{os.getpid()}"
    os.makedirs(root)
    shutil.copytree("/repo", root + "/repo", symlinks=True)
    os.makedirs(root + "/verif")
    shutil.copytree("/verif/mc", root + "/verif/mc")
    shutil.copy("/verif/known_findings.json", root + "/verif/")
    t = open(root + "/verif/mc/core.py").read().replace('"/repo"', f'"{root}/repo"')
    open(root + "/verif/mc/core.py", "w").write(t)
    os.environ.update(PYTHONPATH=f"{root}/repo:{root}/verif", HOME="/root", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                      OPENBLAS_NUM_THREADS="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    todo = []
    for f in REL if not a.files else a.files.split(","):
        src, ss = sites("/repo/run_time_assurance/" + f)
        todo += [(f, src, s) for s in ss]
    random.Random(7).shuffle(todo)
    todo = todo[a.offset::a.every]
    todo = [(f, src, s) for f, src, s in todo if (f, s[4], src[s[0]:s[1]][:160], s[2][:160]) not in done]
    print(len(todo), "mutants", flush=True)
    if a.list:
        return
    cache = {}
    ctx = mp.get_context("spawn")
    try:
        for f, src, (x, y, new, kind, line, where) in todo:
            p = f"{root}/repo/run_time_assurance/{f}"
            m = src[:x] + new + src[y:]
            try:
                ast.parse(m)
            except SyntaxError:
                continue
            if f not in cache:
                sl = shardlist(root, REL[f].split(), a.ev)
                sl, tot = sorted(sl, key=lambda s: s[2]), 0.
                cache[f] = ([], [])
                for s in sl:
                    tot += s[2]
                    cache[f][not (tot < a.budget or s[2] < 2.)].append(s)
            open(p, "w").write(m)
            t0, hit, what = time.time(), None, None
            for pas in cache[f]:  # the cheap shards first, the expensive ones only for survivors
                with ctx.Pool(a.jobs) as pool:
                    for c, r in pool.imap_unordered(work, [(root, (c, s)) for c, s, _ in pas], chunksize=1):
                        if r["violations"]:
                            hit, what = c, r["violations"][0]["what"][:120]
                            break
                    pool.terminate()
                if hit:
                    break
            open(p, "w").write(src)
            rec = dict(file=f, line=line, where=where, kind=kind, old=src[x:y][:160], new=new[:160], killed=hit, what=what, wall=round(time.time() - t0, 1))
            open(a.out, "a").write(json.dumps(rec) + "\n")
            print(("killed by " + hit if hit else "SURVIVED"), f, line, where, kind, repr(rec["old"][:60]), "->", repr(rec["new"][:60]), rec["wall"], flush=True)
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    main()
