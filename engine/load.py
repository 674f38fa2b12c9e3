"""Load the real /repo/awkward0 sources with numpy and a few builtins replaced by their symbolic contracts.

What extraction changes (mechanically, on every run): nothing in the source text except that `X.indices(n)`
calls become `__vp_indices__(X, n)`; the modules are executed with numpy := engine.sym.FakeNumpy and the
builtins len, range, min, max, sum, int replaced by symbolic-aware versions.
"""
import ast, builtins, importlib.abc, importlib.machinery, os, sys, types
from . import sym

REPO = os.environ.get("VP_REPO", "/repo")


class _Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "indices" and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(ast.Call(func=ast.Name(id="__vp_indices__", ctx=ast.Load()), args=[node.func.value, node.args[0]], keywords=[]), node)
        return node


def fake_numpy():
    global _fake
    try:
        return _fake
    except NameError:
        _fake = sym.FakeNumpy()
        return _fake


def vp_isinstance(x, t):
    return isinstance(x, t)


def make_builtins():
    b = dict(vars(builtins))
    b["len"] = sym.vp_len
    b["range"] = sym.vp_range
    b["min"] = sym.vp_min
    b["max"] = sym.vp_max
    b["sum"] = sym.vp_sum
    b["__vp_indices__"] = sym.vp_slice_indices

    class vint(int, metaclass=sym._IntMeta):
        pass
    b["int"] = vint
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == "numpy" and level == 0:
            return fake_numpy()
        return real_import(name, globals, locals, fromlist, level)
    b["__import__"] = imp
    return b


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != "awkward0" and not name.startswith("awkward0."):
            return None
        rel = name.split(".")
        p = os.path.join(REPO, *rel)
        if os.path.isdir(p):
            fn = os.path.join(p, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, self, origin=fn, is_package=True)
            spec.submodule_search_locations = [p]
        else:
            fn = p + ".py"
            if not os.path.exists(fn):
                return None
            spec = importlib.machinery.ModuleSpec(name, self, origin=fn)
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn) as f:
            src = f.read()
        tree = ast.parse(src, fn)
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        code = compile(tree, fn, "exec")
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


BUILTINS = None
_loaded = None


def load():
    """the awkward0 package under symbolic numpy"""
    global BUILTINS, _loaded
    if _loaded is not None:
        return _loaded
    BUILTINS = make_builtins()
    for k in list(sys.modules):
        if k == "awkward0" or k.startswith("awkward0."):
            del sys.modules[k]
    sys.meta_path.insert(0, Finder())
    import awkward0
    _loaded = awkward0
    return awkward0
