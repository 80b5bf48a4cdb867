"""Import hook which regenerates the symbolic encoding from source.

Modules below the configured prefixes are compiled from their *current* source
after an AST rewrite, which routes the operations a proxy object can't
intercept by itself (calls of C functions, ``in``, subscripts of dictionaries,
string formatting, ...) through `symdev.shims`.  The rewrite is generic, nothing
in it knows about particular functions of the code under test.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys
import types

PREFIXES = (
    "devpi_common", "devpi_server", "devpi_web", "devpi_postgresql", "devpi",
    "devpi_debugging",
    "packaging", "packaging_legacy", "repoze", "itsdangerous",
)
EXACT = {
    "py._path.local",
    "py._path.common",
    "pyramid.authorization",
}
# stdlib modules for which an instrumented twin is used with symbolic arguments
TWINS = {
    "posixpath", "genericpath", "urllib.parse", "html", "fnmatch", "bisect",
    "base64", "shlex", "string", "hmac",
}

_functions = {}


def wants(name):
    if name in EXACT:
        return True
    return name.split(".", 1)[0] in PREFIXES


NO_SHIM = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "print"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _const_key(k):
    return isinstance(k, ast.Constant)


_CMP = {ast.Eq: "__sx_eq__", ast.NotEq: "__sx_ne__", ast.Lt: "__sx_lt__",
        ast.LtE: "__sx_le__", ast.Gt: "__sx_gt__", ast.GtE: "__sx_ge__"}
_BINOP = {ast.BitOr: "__sx_or__", ast.BitAnd: "__sx_and__", ast.Sub: "__sx_sub__",
          ast.BitXor: "__sx_xor__"}
_IBINOP = {ast.BitOr: "__sx_ior__", ast.BitAnd: "__sx_iand__", ast.Sub: "__sx_isub__",
           ast.BitXor: "__sx_ixor__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.in_annotation = 0

    def _call(self, fn, args, node):
        return ast.copy_location(
            ast.Call(func=_name(fn), args=args, keywords=[]), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NO_SHIM:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=_name("__sx_call__"), args=[node.func, *node.args],
                     keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            if any(isinstance(x, (ast.In, ast.NotIn)) for x in node.ops):
                # a < b in c: rare, evaluated natively
                pass
            return node
        op = node.ops[0]
        if isinstance(op, ast.In):
            return self._call("__sx_in__", [node.left, node.comparators[0]], node)
        if isinstance(op, ast.NotIn):
            return self._call("__sx_notin__", [node.left, node.comparators[0]], node)
        name = _CMP.get(type(op))
        if name is not None:
            c = node.comparators[0]
            if isinstance(c, ast.Constant) or isinstance(node.left, ast.Constant):
                return node
            return self._call(name, [node.left, c], node)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = node.comparators[0]
            if isinstance(c, ast.Constant) and isinstance(c.value, bool):
                return self._call(
                    "__sx_is__" if isinstance(op, ast.Is) else "__sx_isnot__",
                    [node.left, c], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.in_annotation:
            return node
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                return node
            return self._call("__sx_getitem__", [node.value, node.slice], node)
        if isinstance(node.slice, ast.Slice):
            return node
        node.value = self._call("__sx_w__", [node.value], node.value)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                parts.append(self.visit_FormattedValue(v))
        return self._call("__sx_fstr__", parts, node)

    def visit_FormattedValue(self, node):
        value = self.visit(node.value)
        spec = self.visit(node.format_spec) if node.format_spec else ast.Constant("")
        return self._call(
            "__sx_fmt__", [value, ast.Constant(node.conversion), spec], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sx_mod__", [node.left, node.right], node)
        name = _BINOP.get(type(node.op))
        if name is not None and not isinstance(node.left, ast.Constant) and not isinstance(
                node.right, ast.Constant):
            return self._call(name, [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        name = _IBINOP.get(type(node.op))
        if name is not None and isinstance(node.target, ast.Name) and not isinstance(
                node.value, ast.Constant):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._call(name, [
                    ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node),
                    node.value], node)), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and _const_key(k) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self._call("__sx_dict__", items, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if any(isinstance(e, ast.Starred) for e in node.elts) or not all(
                _const_key(e) for e in node.elts):
            return self._call("__sx_set__", node.elts, node)
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call("__sx_setc__", [ast.copy_location(ast.ListComp(
            elt=node.elt, generators=node.generators), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call("__sx_dictc__", [ast.copy_location(ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators), node)], node)

    # annotations are left alone

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        returns, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = returns
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_If(self, node):
        # ``if TYPE_CHECKING:`` blocks only contain imports
        if isinstance(node.test, ast.Name) and node.test.id == "TYPE_CHECKING":
            return node
        self.generic_visit(node)
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, orig, path, fullname):
        self.orig = orig
        self.path = path
        self.fullname = fullname

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            source = f.read()
        exec(transform(source, self.path), module.__dict__)

    def get_source(self, fullname):
        with open(self.path, encoding="utf-8") as f:
            return f.read()

    def is_package(self, fullname):
        return self.orig.is_package(fullname)

    def get_filename(self, fullname=None):
        return self.path

    def get_resource_reader(self, name):
        g = getattr(self.orig, "get_resource_reader", None)
        return g(name) if g is not None else None

    def get_data(self, path):
        return self.orig.get_data(path)


class Finder(importlib.abc.MetaPathFinder):
    busy = False

    def find_spec(self, fullname, path=None, target=None):
        if not wants(fullname):
            return None
        for f in sys.meta_path:
            if f is self:
                continue
            find = getattr(f, "find_spec", None)
            if find is None:
                continue
            spec = find(fullname, path, target)
            if spec is not None:
                break
        else:
            return None
        if spec.origin and spec.origin.endswith(".py") and spec.loader is not None:
            spec.loader = Loader(spec.loader, spec.origin, fullname)
        return spec


_twin_modules = {}


def twin_module(name):
    """ instrumented copy of a stdlib module """
    m = _twin_modules.get(name)
    if m is not None:
        return m
    orig = sys.modules[name]
    path = orig.__file__
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = orig.__package__
    if hasattr(orig, "__path__"):
        m.__path__ = orig.__path__
    _twin_modules[name] = m
    with open(path, encoding="utf-8") as f:
        source = f.read()
    # the caches hash their arguments
    source = re.sub(r"@functools\.(lru_cache|cache)(\([^()]*\))?(?=\n)", "", source)
    source = source.replace("@lru_cache", "#")
    exec(transform(source, path), m.__dict__)
    return m


_twins = {}


def twin(f):
    """ the instrumented twin of a stdlib function or class, or None """
    r = _twins.get(f, 0)
    if r != 0:
        return r
    r = None
    mod = getattr(f, "__module__", None)
    if mod in TWINS and mod in sys.modules:
        qn = getattr(f, "__qualname__", "")
        obj = twin_module(mod)
        for part in qn.split("."):
            obj = getattr(obj, part, None)
            if obj is None:
                break
        if obj is not None and obj is not f:
            r = obj
    _twins[f] = r
    return r


# -- record which functions were executed symbolically

_TOOL = 4
ENTERED = set()


def _py_start(code, offset):
    fn = code.co_filename
    if fn.startswith(REPO):
        ENTERED.add("%s:%s" % (os.path.relpath(fn, REPO), code.co_qualname))
    return sys.monitoring.DISABLE


REPO = "/repo/"


def install_builtins():
    import builtins
    from . import shims
    for n in shims.__dict__:
        if n.startswith("sx_"):
            setattr(builtins, "__%s__" % n, shims.__dict__[n])


def install():
    for name in list(sys.modules):
        if wants(name):
            raise RuntimeError("%s imported before instrumentation" % name)
    install_builtins()
    sys.meta_path.insert(0, Finder())
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "symdev")
    mon.register_callback(_TOOL, mon.events.PY_START, _py_start)
    mon.set_events(_TOOL, mon.events.PY_START)
