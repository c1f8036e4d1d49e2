"""Mechanical extraction: /repo/spreg sources -> symbolic modules.

Every run parses the current files of /repo/spreg, drops the `if __name__ ==
"__main__"` blocks, makes bare `except` clauses transparent to engine signals,
prints symbolic values as nan in formatted text (no proof depends on such text),
and executes the otherwise unchanged code with numpy / scipy / libpysal bound to
the symbolic look-alikes and a few builtins (float, int, len, isinstance, sum,
min, max, range, abs, round) bound to versions that also accept symbolic values.
"""
import ast
import builtins
import os
import sys
import types
from . import shims
from .terms import EngineError, Unsupported

REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "spreg")
REG = {}
STUBS = {}            # bound callee contracts
REAL_OK = {"copy", "itertools", "functools", "collections", "warnings", "time", "operator", "re", "string",
           "types", "typing", "numbers", "fractions", "sys", "os", "random", "pandas", "platform", "abc", "textwrap",
           "dataclasses", "inspect", "contextlib", "statistics"}


WHILES = {}           # "module:qualname" -> number of while loops of the function, for every function loaded
CALLS = {}            # "module:qualname" -> names called in it
LOOPS = {}            # bound loop contracts: "module:qualname#k" -> object with enter(locals) and back(locals)


def find_loop(key):
    """the loop a contract names. When the function holds none (a helper was extracted), the one of the only function of the same module that
    it calls, directly or through others, and that holds one."""
    mod, q = key.split("#")[0].split(":")
    load(mod)
    if WHILES.get(mod + ":" + q) or "#" in key:
        return key
    seen, todo, found = set(), [mod + ":" + q], []
    while todo:
        f = todo.pop()
        for g in sorted(CALLS):
            m2, q2 = g.split(":")
            if g not in seen and m2 == mod and q2.split(".")[-1] in CALLS.get(f, ()):
                seen.add(g)
                todo.append(g)
                if WHILES.get(g):
                    found.append(g)
    if len(found) == 1 and WHILES[found[0]] == 1:
        return found[0]
    raise Unsupported("loop contract of %s does not fit the code: the function holds no while loop" % key)


def loop_active(key):
    return key in LOOPS


def loop_enter(key, loc, names):
    """the invariant holds on entry (checked by the contract); returns arbitrary values satisfying it."""
    new = LOOPS[key].enter(dict(loc))
    return tuple(new[n] if n in new else loc.get(n, shims.Undefined(n)) for n in names)


def loop_head(key, loc):
    """called before every evaluation of the loop condition; the second time one arbitrary iteration is complete."""
    if key in LOOPS:
        LOOPS[key].head(dict(loc))
    return True


class Rewriter(ast.NodeTransformer):
    """besides dropping the __main__ block, lets a loop contract cut a `while` loop: on entry the variables assigned in the
    body are replaced by arbitrary values satisfying the invariant, and one arbitrary iteration is executed.  Without a
    bound loop contract the loop runs as written."""

    def __init__(self, mod=""):
        self.mod, self.stack, self.count = mod, [], {}

    def _scope(self, node):
        self.stack.append(node.name)
        if isinstance(node, ast.FunctionDef):
            names = CALLS.setdefault(self.mod + ":" + ".".join(self.stack), set())
            for x in ast.walk(node):
                if isinstance(x, ast.Call):
                    f = x.func
                    names.add(f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else "")
        self.generic_visit(node)
        self.stack.pop()
        return node

    visit_ClassDef = visit_FunctionDef = _scope

    def visit_While(self, node):
        q = self.mod + ":" + ".".join(self.stack)
        k = self.count.get(q, 0)
        self.count[q] = k + 1
        WHILES[q] = k + 1
        key = q if not k else "%s#%d" % (q, k)
        self.generic_visit(node)
        names = []
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                    names.append(x.id)
        node.test = ast.BoolOp(op=ast.And(), values=[ast.parse("__loop_head__(%r, locals())" % key, mode="eval").body, node.test])
        if not names:
            names = ["__none__"]
        cut = ast.parse("if __loop_active__(%r):\n    (%s,) = __loop_enter__(%r, locals(), %r)" % (key, ", ".join(names), key, tuple(names))).body
        return cut + [node]

    def visit_For(self, node):
        """a loop over a symbolic collection (an object with for_enter) is cut the same way."""
        self.generic_visit(node)
        names = []
        for b in [node.target] + node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                    names.append(x.id)
        if not names:
            return node
        k = "_vf_it%d" % node.lineno
        src = "%s = None\nif hasattr(%s, 'for_enter'):\n    (%s,) = %s.for_enter(locals(), %r)\n" % (k, k, ", ".join(names), k, tuple(names))
        for n in names:
            src += "    if %s is __UNBOUND__:\n        del %s\n" % (n, n)
        cut = ast.parse(src).body
        cut[0].value = node.iter
        node.iter = ast.parse(k, mode="eval").body
        return cut + [node]

    def visit_Try(self, node):
        self.generic_visit(node)
        h = ast.ExceptHandler(type=ast.parse("__EngineError__()", mode="eval").body, name=None, body=[ast.Raise()])
        node.handlers.insert(0, h)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id="__fmt__", ctx=ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        t = node.test
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
            return ast.Pass()
        return node


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 1 or name == "spreg" or name.startswith("spreg."):
        base = name[6:] if name.startswith("spreg.") else ("" if name == "spreg" else name)
        if level == 1 and not name:
            base = ""
        if base:
            m = load(base)
            if fromlist:
                return m
            return PKG
        for f in fromlist or ():
            if os.path.exists(os.path.join(SRC, f + ".py")):
                setattr(PKG, f, load(f))
        return PKG
    root = name.split(".")[0]
    if root in ("numpy", "scipy", "libpysal", "math"):
        m = shims.MODULES.get(name)
        if m is None:
            m = shims.Mod(name)
        if fromlist:
            return m
        return shims.MODULES[root]
    if root in REAL_OK:
        return builtins.__import__(name, globals, locals, fromlist, level)
    if root in ("tqdm", "sklearn", "joblib", "matplotlib", "seaborn"):
        raise ImportError(name)
    return shims.Mod(name)


BI = dict(vars(builtins))
BI.update(shims.BUILTINS)
BI["__import__"] = sym_import
SIGNALS = [EngineError]         # what a bare `except` of spreg lets pass (the engine adds its own)
BI["__EngineError__"] = lambda: tuple(SIGNALS)
BI["__UNBOUND__"] = shims.UNBOUND
BI["__fmt__"] = shims.fmt
BI["__loop_active__"], BI["__loop_enter__"], BI["__loop_head__"] = loop_active, loop_enter, loop_head
PKG = types.ModuleType("symspreg")


def set_stub(key, fn):
    """bind a callee contract: the name, in its own module and wherever it was imported, refers to fn."""
    mod, q = key.split(":")
    m = load(mod)
    parts = q.split(".")
    if len(parts) == 1:
        orig = m.__dict__[q]
        fn.__wrapped__ = orig
        for mm in list(REG.values()):
            for k, v in list(mm.__dict__.items()):
                if v is orig:
                    STUBS.setdefault((mm.__name__, None, k), (mm, orig))
                    setattr(mm, k, fn)
    else:
        c = m.__dict__[parts[0]]
        STUBS.setdefault((m.__name__, parts[0], parts[1]), (c, c.__dict__[parts[1]]))
        setattr(c, parts[1], fn)


def clear_stubs():
    for (_, _, k), (o, orig) in list(STUBS.items()):
        setattr(o, k, orig)
    STUBS.clear()
    LOOPS.clear()


BOOTED = [False]


def boot():
    """import the modules in the order of spreg/__init__.py (the package has import cycles)."""
    BOOTED[0] = True
    with open(os.path.join(SRC, "__init__.py")) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.ImportFrom) and node.level == 1 and node.module and \
                os.path.exists(os.path.join(SRC, node.module + ".py")):
            try:
                load(node.module)
            except ImportError:
                REG.pop(node.module, None)


def load(name):
    if not BOOTED[0]:
        boot()
    name = name.split(".")[0] if "." in name else name
    if name in REG:
        return REG[name]
    path = os.path.join(SRC, name + ".py")
    if not os.path.exists(path):
        raise ImportError("no module spreg." + name)
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = ast.fix_missing_locations(Rewriter(name).visit(tree))
    m = types.ModuleType("symspreg." + name)
    m.__dict__["__builtins__"] = BI
    m.__file__ = path
    REG[name] = m
    setattr(PKG, name, m)
    exec(compile(tree, path, "exec"), m.__dict__)
    return m
