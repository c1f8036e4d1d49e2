"""Mechanical mutants of /repo/spreg, to look for what the checks miss (scratch copies under /tmp only).

  mutate.py gen OUT.json COUNT SEED [FILE...]     sample mutants
  mutate.py test MUT.json [J]                     keep those that pass the stable tests
  mutate.py check MUT.json [J]                    run the checks of the properties whose contracts name the function or the module
"""
import ast, json, multiprocessing as mp, os, random, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo") + "/spreg"        # a snapshot, when /repo may change meanwhile
SKIP = {"__init__.py", "opt.py", "summary_output.py", "output.py"}


def offsets(src):
    o = [0]
    for l in src.splitlines(True):
        o.append(o[-1] + len(l.encode()))
    return o


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.b, self.off, self.out, self.fn = src, src.encode(), offsets(src), [], []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, op):
        if not self.fn or self.fn[0] == "_test":
            return
        a, b = self.span(n)
        self.out.append(dict(fn=".".join(self.fn), line=n.lineno, a=a, b=b, new=new, old=self.b[a:b].decode(), op=op))

    def scoped(self, n):
        self.fn.append(n.name)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.fn.pop()
    visit_FunctionDef = visit_ClassDef = scoped

    def visit_If(self, n):
        if not self.fn and "__name__" in ast.dump(n.test):
            return
        if self.fn:
            self.add(n.test, "not (%s)" % self.text(n.test), "negate")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
        if sw and not isinstance(n.left, ast.Constant) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            self.add(n, "(%s) %s (%s)" % (self.text(n.left), sw, self.text(n.right)), "arith")
            self.add(n, self.text(n.left), "drop-right")
        self.generic_visit(n)

    def visit_Compare(self, n):
        sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
        if sw and len(n.ops) == 1:
            self.add(n, "%s %s %s" % (self.text(n.left), sw, self.text(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if len(n.values) == 2:
            self.add(n, "(%s) %s (%s)" % (self.text(n.values[0]), "or" if isinstance(n.op, ast.And) else "and", self.text(n.values[1])), "bool")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, str(v + 1) if v != 1 else random.choice(["0", "2"]), "const")
        elif isinstance(v, float) and v:
            self.add(n, repr(v * 1.5), "const")

    def visit_Attribute(self, n):
        if n.attr == "T":
            self.add(n, self.text(n.value), "untranspose")
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) >= 2 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
            a = [self.text(x) for x in n.args]
            self.add(n, "%s(%s)" % (self.text(n.func), ", ".join([a[1], a[0]] + a[2:])), "swap-args")
        for k in n.keywords:
            if isinstance(k.value, ast.Name) and len(n.keywords) > 1:
                self.add(k.value, "None", "kw-none")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Attribute) or isinstance(n.targets[0], ast.Subscript):
            self.add(n, "pass", "drop-assign")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and self.fn:
            self.add(n, "pass", "drop-call")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            pass
        self.generic_visit(n)


def gen(out, count, seed, files):
    random.seed(seed)
    L = []
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".py") or f in SKIP or files and f not in files:
            continue
        src = open(os.path.join(SRC, f), newline="").read()
        g = Gen(src)
        g.visit(ast.parse(src))
        L += [dict(m, file=f) for m in g.out]
    # spread over functions
    random.shuffle(L)
    seen, pick = {}, []
    for m in sorted(L, key=lambda m: random.random()):
        k = (m["file"], m["fn"])
        seen[k] = seen.get(k, 0) + 1
        m["rank"] = seen[k]
    L.sort(key=lambda m: (m["rank"], random.random()))
    pick = L[:count * 3]
    random.shuffle(pick)
    pick = pick[:count]
    for i, m in enumerate(pick):
        m["id"] = "%d-%d" % (seed, i)
    json.dump(pick, open(out, "w"), indent=0)
    print(len(L), "possible,", len(pick), "picked")


def copy_for(tag):
    d = "/tmp/mut/w_%s" % tag
    if not os.path.isdir(d + "/spreg"):
        os.makedirs(d, exist_ok=True)
        subprocess.check_call("cp -a %s %s/ && cp -a /repo/pyproject.toml %s/ 2>/dev/null; true" % (SRC, d, d), shell=True)
    return d


def apply(d, m):
    p = os.path.join(SRC, m["file"])
    b = open(p, "rb").read()
    assert b[m["a"]:m["b"]].decode() == m["old"]
    open(os.path.join(d, "spreg", m["file"]), "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])


def undo(d, m):
    shutil.copy(os.path.join(SRC, m["file"]), os.path.join(d, "spreg", m["file"]))


def test_one(m):
    d = copy_for(os.getpid())
    apply(d, m)
    try:
        s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d).replace("/opt/vp/cache/junit.xml", d + "/junit.xml")
        open(d + "/t.sh", "w").write(s)
        try:
            subprocess.run(["bash", d + "/t.sh", d + "/out.json"], capture_output=True, timeout=200, env=dict(os.environ, PYTHONPATH=d))
            O = json.load(open(d + "/out.json"))
        except Exception:
            return m["id"], False
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        return m["id"], not (base - set(O["passed"]))
    finally:
        undo(d, m)


def check_one(a):
    m, props = a
    d = copy_for(os.getpid())
    v = "/tmp/mut/v_%d" % os.getpid()
    if not os.path.isdir(v):
        subprocess.check_call(["cp", "-a", ROOT, v])
    apply(d, m)
    res, caught = [], None
    try:
        for p in props:
            try:
                r = subprocess.run(["./check", p, "-j", "2"], cwd=v, capture_output=True, text=True, timeout=600, env=dict(os.environ, VF_REPO=d))
                res.append((p, r.returncode))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    caught = p + (" (no input)" if "no-failing-input" in r.stdout else "")
                    if "no-failing-input" not in r.stdout or r.stdout.count("VIOLATION") > r.stdout.count("no-failing"):
                        caught = p
                        break
                elif r.returncode not in (0, 1):
                    res.append((p, (r.stdout + r.stderr)[-200:]))
            except subprocess.TimeoutExpired:
                res.append((p, "timeout"))
    finally:
        undo(d, m)
    return m["id"], caught, res


def mapping():
    sys.path.insert(0, ROOT)
    from vf import run
    byfn, bymod = {}, {}
    for c in run.load_contracts(None):
        for f in c.funcs:
            mod, q = f.split(":")
            byfn.setdefault((mod, q), []).append(c.prop)
            bymod.setdefault(mod, []).append(c.prop)
    return byfn, bymod


EXTRA = {"user_output": ["C21", "C22"], "w_utils": ["C21", "C07", "C19"], "regimes": ["C12", "C23"], "panel": ["C19", "C20"], "utils": ["C03", "C05", "C27"], "sur_utils": ["C17", "C18"]}


def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        return gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
    L = json.load(open(sys.argv[2]))
    j = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    if cmd == "test":
        with mp.Pool(j) as pool:
            ok = dict(pool.imap_unordered(test_one, [m for m in L]))
        L = [m for m in L if ok[m["id"]]]
        json.dump(L, open(sys.argv[2].replace(".json", ".live.json"), "w"), indent=0)
        print(len(L), "pass the tests")
    if cmd == "check":
        byfn, bymod = mapping()
        jobs = []
        for m in L:
            mod = m["file"][:-3]
            first = []
            for (a, q), ps in byfn.items():
                if a == mod and (m["fn"] == q or m["fn"].startswith(q + ".") or q.startswith(m["fn"] + ".") or q.split(".")[0] == m["fn"].split(".")[0]):
                    first += ps
            rest = sorted(set(bymod.get(mod, [])), key=lambda p: -bymod[mod].count(p)) + EXTRA.get(mod, [])
            props = list(dict.fromkeys(sorted(set(first), key=lambda p: -first.count(p)) + rest))
            props = [p for p in props if p not in ("C22", "C21")] + [p for p in props if p in ("C21", "C22")]
            jobs.append((m, props[:7]))
        out = []
        with mp.Pool(j) as pool:
            for i, caught, res in pool.imap_unordered(check_one, jobs, chunksize=1):
                m = [x for x in L if x["id"] == i][0]
                m["caught"], m["res"] = caught, res
                out.append(m)
                print(i, m["file"], m["fn"], m["line"], m["op"], "caught by " + caught if caught else "MISSED", "|", m["old"][:60].replace("\n", " "), "->", m["new"][:60].replace("\n", " "), "" if caught else res, flush=True)
                json.dump(out, open(sys.argv[2].replace(".json", ".checked.json"), "w"), indent=0)


main()
