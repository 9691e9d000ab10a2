"""Load rigid_body_motion from /repo's working tree, with chosen imports.

Source files are read and compiled from the current working tree on every
run.  ``numpy``, ``quaternion``, ``scipy`` ... imports made by that code are
answered from ``table``; everything else is imported normally.
"""
import ast
import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get("RBM_REPO", "/repo")
PKG = "rigid_body_motion"

_code = {}
_tree = None


def source_files():
    """module name -> (path, is_pkg), of the current working tree."""
    global _tree
    if _tree is None:
        t = {}
        root = os.path.join(REPO, PKG)
        for d, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            rel = os.path.relpath(d, REPO).replace(os.sep, ".")
            for f in files:
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                if f == "__init__.py":
                    t[rel] = (p, True)
                else:
                    t[rel + "." + f[:-3]] = (p, False)
        _tree = t
    return _tree


class _Indices(ast.NodeTransformer):
    """Decide symbolic masks before they index an ordinary array.

    Ordinary arrays, unlike the shim's, cannot take symbolic indices.
    """

    def _wrap(self, n):
        if isinstance(n, (ast.Constant, ast.Slice, ast.Starred)):
            return n
        return ast.copy_location(ast.Call(
            ast.copy_location(ast.Name("__sx_index__", ast.Load()), n),
            [n], []), n)

    def visit_Call(self, node):
        # float(x), int(x) of a symbol stay symbolic
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in (
                "float", "int", "isinstance"):
            f.id = f"__sx_{f.id}__"
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        s = node.slice
        if isinstance(s, ast.Tuple):
            s.elts = [self._wrap(e) for e in s.elts]
        else:
            node.slice = self._wrap(s)
        return node


def code_for(name, sym):
    c = _code.get((name, sym))
    if c is None:
        path, _ = source_files()[name]
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read(), path)
        if sym:
            tree = _Indices().visit(tree)
        c = compile(tree, path, "exec", dont_inherit=True)
        _code[name, sym] = c
    return c


class World:
    """One private copy of the package."""

    def __init__(self, table, block=()):
        self.table = table
        self.block = set(block)
        self.modules = {}
        self.builtins = types.ModuleType("builtins")
        self.builtins.__dict__.update(builtins.__dict__)
        self.builtins.__import__ = self._import
        self.sym = "numpy" in table
        if self.sym:
            from .nshim import conv_index

            from .builtins_ import is_instance, to_float, to_int

            self.builtins.__sx_index__ = conv_index
            self.builtins.__sx_float__ = to_float
            self.builtins.__sx_int__ = to_int
            self.builtins.__sx_isinstance__ = is_instance
        for k in ("sum", "min", "max", "abs", "round", "float", "int"):
            v = table.get("builtin:" + k)
            if v is not None:
                setattr(self.builtins, k, v)
        self.pkg = self.load(PKG)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in source_files():
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = source_files()[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins.__dict__
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.modules[name] = m
        try:
            exec(code_for(name, self.sym), m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.modules[par], leaf, m)
        return m

    # -- import hook ----------------------------------------------------
    def _resolve(self, name):
        if name == PKG or name.startswith(PKG + "."):
            return self.load(name)
        if name in self.table:
            v = self.table[name]
            return v() if isinstance(v, types.FunctionType) else v
        top = name.partition(".")[0]
        if top in self.block:
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or PKG
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        ours = name == PKG or name.startswith(PKG + ".")
        top = name.partition(".")[0]
        if not ours and name not in self.table and top not in self.table \
                and top not in self.block:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if not fromlist:
            # import a.b.c binds a
            self._resolve(name)
            return self._resolve(top)
        m = self._resolve(name)
        if ours:
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f) and (name + "." + f) in source_files():
                    self.load(name + "." + f)
        else:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and (
                    name + "." + f
                ) in self.table:
                    try:
                        setattr(m, f, self._resolve(name + "." + f))
                    except (AttributeError, TypeError):
                        pass
        return m


def module(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    m.__path__ = []
    return m


# ----------------------------------------------------------------------
_patched = False


def patch_xarray():
    """Let xarray carry symbolic arrays (structure only, no arithmetic)."""
    global _patched
    if _patched:
        return
    _patched = True
    import numpy as np
    import xarray as xr
    from xarray.core import variable as V

    from .nshim import SymArray

    orig = V.as_compatible_data

    def as_compatible_data(data, fastpath=False):
        if isinstance(data, SymArray):
            return _plain_if_exact(data)
        if isinstance(data, (V.Variable, xr.DataArray)) and isinstance(
            data._data if isinstance(data, V.Variable)
            else data.variable._data, SymArray
        ):
            return data.data
        if getattr(data, "ndim", None) == 0 and isinstance(data, object):
            from .engine import SymReal

            if isinstance(data, SymReal):
                from .nshim import to_obj

                return SymArray(to_obj(data))
        return orig(data, fastpath)

    V.as_compatible_data = as_compatible_data
    import xarray.core.dataarray as D

    if hasattr(D, "as_compatible_data"):
        D.as_compatible_data = as_compatible_data


def _plain_if_exact(a):
    """Constants that are doubles (times, mostly) as a plain float array."""
    import numpy as np

    from fractions import Fraction

    from .engine import SymReal
    from .nshim import to_obj

    if a.kind != "f" or a.size == 0 or a.isint:
        return a
    o = to_obj(a)
    out = np.empty(o.shape)
    for i in np.ndindex(o.shape):
        v = o[i]
        if isinstance(v, SymReal):
            if not v.is_const():
                return a
            c = v.const_value()
            out[i] = float(c)
            if Fraction(float(out[i])) != c:
                return a
        else:
            out[i] = v
    return out


def sym_table():
    from . import builtins_ as B
    from . import mshim, nshim, qshim, sshim

    NP = nshim.NP
    q = qshim.build()
    t = {
        "numpy": NP,
        "numpy.linalg": NP.linalg,
        "quaternion": q,
        "math": mshim.build(),
        "scipy": module("scipy"),
        "scipy.interpolate": module("scipy.interpolate", **sshim.INTERP),
        "scipy.signal": module("scipy.signal", **sshim.SIGNAL),
        "scipy.spatial": module("scipy.spatial", **sshim.SPATIAL),
    }
    for k, v in B.TABLE.items():
        t["builtin:" + k] = v
    return t


# executed functions of the package (for the evidence) -------------------
executed = set()
_mon = None


def watch():
    """Record every package function that starts executing."""
    global _mon
    if _mon is not None:
        return
    mon = sys.monitoring
    _mon = mon.PROFILER_ID
    try:
        mon.use_tool_id(_mon, "sx")
    except ValueError:
        return
    root = os.path.join(REPO, PKG) + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            executed.add(
                os.path.relpath(code.co_filename, REPO)
                + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(_mon, mon.events.PY_START, start)
    events = mon.events.PY_START
    if os.environ.get("SX_LINES"):
        import atexit

        lines = set()

        def line(code, no):
            if code.co_filename.startswith(root):
                lines.add((os.path.relpath(code.co_filename, REPO), no))
            return mon.DISABLE

        def dump():
            f = os.path.join(os.environ["SX_LINES"], str(os.getpid()))
            with open(f, "w") as fh:
                fh.writelines(f"{a}:{b}\n" for a, b in sorted(lines))

        mon.register_callback(_mon, mon.events.LINE, line)
        events |= mon.events.LINE
        globals()["dump_lines"] = dump
    mon.set_events(_mon, events)
