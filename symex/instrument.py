"""Source instrumentation: loads the *current* sources of the code under analysis and
rewrites operations that CPython would perform in C on exact types (string methods, %,
f-strings, dict/set keys, `in`, regex calls, type()) into calls of symex.hooks."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import hooks

SX = "_sx"
_NOHOOK = {"super", "locals", "globals", "vars", "dir", "exec", "breakpoint", "__import__"}


_CMPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.LtE: "le", ast.Lt: "lt", ast.GtE: "ge", ast.Gt: "gt"}


def _const(n):
    return isinstance(n, (ast.Constant, ast.JoinedStr)) or (isinstance(n, ast.UnaryOp) and isinstance(n.operand, ast.Constant)) \
        or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len")


class Instrumenter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.cls = []

    def _h(self, name, args, node, keywords=()):
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name(id=SX, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                     args=args, keywords=list(keywords)), node)

    # no instrumentation in annotations
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.body = self._body(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        node.body = self._body(node.body)
        self.cls.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(b) for b in node.keywords]
        return node

    def _mangle(self, attr):
        if self.cls and attr.startswith("__") and not attr.endswith("__"):
            return "_" + self.cls[-1].lstrip("_") + attr
        return attr

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and (f.id in _NOHOOK or (f.id in ("eval",) and len(node.args) < 2)):
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            return self._h("callm", [self.visit(f.value), ast.copy_location(ast.Constant(self._mangle(f.attr)), f)] + args,
                           node, kws)
        return self._h("call", [self.visit(f)] + args, node, kws)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            # keep left-to-right evaluation: x first, then container
            return self._h("in_" if isinstance(node.ops[0], ast.In) else "not_in",
                           [node.left, node.comparators[0]], node)
        if len(node.ops) == 1 and type(node.ops[0]) in _CMPS and not _const(node.left) and not _const(node.comparators[0]):
            return self._h(_CMPS[type(node.ops[0])], [node.left, node.comparators[0]], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._h("mod", [node.left, node.right], node)
        for cls, op in ((ast.BitOr, "|"), (ast.BitAnd, "&"), (ast.Sub, "-"), (ast.BitXor, "^")):
            if isinstance(node.op, cls):
                return self._h("setop", [ast.copy_location(ast.Constant(op), node), node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.copy_location(ast.Constant(""), node)
                args.append(ast.copy_location(ast.Tuple(
                    elts=[self.visit(v.value), ast.copy_location(ast.Constant(v.conversion), node), spec],
                    ctx=ast.Load()), node))
        return self._h("fstr", args, node)

    def visit_Subscript(self, node):
        if isinstance(node.slice, ast.Slice):
            self.generic_visit(node)
            return node
        if isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            return self._h("getitem", [node.value, node.slice], node)
        v, k = self.visit(node.value), self.visit(node.slice)
        if isinstance(v, ast.Name):
            ref = ast.copy_location(ast.Name(id=v.id, ctx=ast.Load()), node)
        else:
            self.n += 1
            nm = "_sx_t%d" % self.n
            v = ast.copy_location(ast.NamedExpr(target=ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), node), value=v), node)
            ref = ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), node)
        node.value = v
        node.slice = self._h("key", [ref, k], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(v)
            else:
                items.append(ast.copy_location(ast.Tuple(elts=[k, v], ctx=ast.Load()), node))
        return self._h("mkdict_display", items, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return self._h("mkset", [ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node),
                             generators=node.generators)
        return self._h("mkdict", [ast.copy_location(g, node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self._h("mkset", [ast.copy_location(g, node)], node)


def in_(x, c):
    return hooks.contains(c, x)


def not_in(x, c):
    return hooks.not_contains(c, x)


hooks.in_ = in_
hooks.not_in = not_in


def instrument_source(src, filename):
    tree = ast.parse(src, filename)
    tree = Instrumenter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ---------------------------------------------------------------- imports

STD_INST = ("shlex", "posixpath", "ntpath", "genericpath", "fnmatch", "textwrap", "argparse")
STD = {}          # name -> instrumented stdlib module
PROXY = {}        # name -> replacement module object


class ModuleProxy(types.ModuleType):
    """module whose attributes default to the real module's"""

    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == "os.path" and fromlist:
            return PROXY["os"].path
        top = name.split(".")[0]
        if name in STD:
            return STD[name]
        if top in PROXY:
            _real_import(name, globals, locals, fromlist, level)
            return PROXY[top]
    return _real_import(name, globals, locals, fromlist, level)


BUILTINS = None


def sx_builtins():
    global BUILTINS
    if BUILTINS is None:
        BUILTINS = dict(vars(builtins))
        BUILTINS["__import__"] = sx_import
    return BUILTINS


FUNCS = {}   # filename -> source lines count (evidence)


def exec_instrumented(src, filename, mod):
    code = instrument_source(src, filename)
    mod.__dict__["__builtins__"] = sx_builtins()
    mod.__dict__[SX] = hooks
    FUNCS[filename] = src.count("\n") + 1
    exec(code, mod.__dict__)


def _load_std(name):
    path = os.path.join(os.path.dirname(os.__file__), name + ".py")
    with open(path, encoding="utf-8") as f:
        src = f.read()
    mod = types.ModuleType(name)
    mod.__file__ = path
    STD[name] = mod
    if name == "posixpath":
        src = src.replace("from posix import _path_normpath as normpath", "raise ImportError")
        src = src.replace("from posix import _path_normpath", "raise ImportError")
    exec_instrumented(src, path, mod)
    return mod


class SxLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        exec_instrumented(src, self.path, module)


class SxFinder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # list of (top-level names, dir)

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        for names, d in self.roots:
            if top in names:
                p = os.path.join(d, *fullname.split("."))
                if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                    f = os.path.join(p, "__init__.py")
                    return importlib.util.spec_from_file_location(
                        fullname, f, loader=SxLoader(f), submodule_search_locations=[p])
                if os.path.exists(p + ".py"):
                    return importlib.util.spec_from_file_location(fullname, p + ".py", loader=SxLoader(p + ".py"))
        return None


def install(roots):
    """roots: list of (names, dir). Installs the instrumenting importer."""
    sys.dont_write_bytecode = True
    osp = ModuleProxy(os)
    PROXY["os"] = osp
    import glob as _g
    for n in ("genericpath", "posixpath", "ntpath", "fnmatch", "shlex", "textwrap", "argparse"):
        _load_std(n)
    osp.path = STD["posixpath"]
    osp.fspath = hooks._m_fspath
    for n in ("sys", "subprocess", "tempfile", "multiprocessing", "shutil", "filecmp", "glob", "time",
              "random", "platform", "threading", "errno", "traceback"):
        if n not in PROXY:
            PROXY[n] = ModuleProxy(importlib.import_module(n))
    PROXY["errno"] = importlib.import_module("errno")
    sys.meta_path.insert(0, SxFinder(roots))
    for m in list(sys.modules):
        if any(m.split(".")[0] in names for names, _ in roots):
            del sys.modules[m]
