"""Import the real modules of /repo, unmodified, against either the symbolic
shims (python3-vt) or the real torch/numpy with the gurobipy stand-in."""
import builtins
import importlib
import importlib.abc
import importlib.util
import math
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "neural_network_lyapunov"
SYMBOLIC = None


class DummyModule(types.ModuleType):
    """Third-party module that no verified path may reach."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _dummy(self.__name__ + "." + k)


def _dummy(name):

    class Dummy:

        def __init__(self, *a, **k):
            raise _unsupported(name)

        def __init_subclass__(cls, **k):
            pass

    Dummy.__name__ = name
    return Dummy


def _unsupported(name):
    from . import sym
    return sym.Unsupported(name)


class _FloatMeta(type):

    def __instancecheck__(cls, x):
        from .sym import Sc
        return builtins.isinstance(x, (builtins.float, Sc))

    def __call__(cls, x=0.0):
        from .sym import Sc
        if isinstance(x, Sc):
            return x
        if hasattr(x, "_is_tensor"):
            return x.item()
        import numpy as np
        if builtins.isinstance(x, np.ndarray) and x.dtype == object:
            return x.reshape(-1)[0] if x.size == 1 else _bad()
        return builtins.float(x)


def _bad():
    raise TypeError("only size-1 arrays can be converted")


class SymFloat(metaclass=_FloatMeta):
    _sym_float = True


class _Finder(importlib.abc.MetaPathFinder):
    """Loads repository (and contract) sources with `float` rebound."""

    def __init__(self, roots):
        self.roots = roots  # {package: directory}

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(
                name, _Loader(init if os.path.exists(init) else None),
                is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_loader(name, _Loader(f),
                                                   origin=f)
        return None


class _Loader(importlib.abc.Loader):

    def __init__(self, f):
        self.f = f

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        if self.f is None:
            return
        with open(self.f, encoding="utf-8") as fh:
            src = fh.read()
        m.__file__ = self.f
        if SYMBOLIC:
            m.__dict__["float"] = SymFloat
            m.__dict__["print"] = _quiet
        else:
            m.__dict__["print"] = _quiet
        exec(compile(src, self.f, "exec"), m.__dict__)


def _quiet(*a, **k):
    pass


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup(symbolic):
    global SYMBOLIC
    SYMBOLIC = symbolic
    sys.dont_write_bytecode = True
    from . import gurobi_core
    sys.modules["gurobipy"] = gurobi_core.build(symbolic)
    for n in ("wandb", "matplotlib", "matplotlib.pyplot", "pybullet",
              "pybullet_data", "pybullet_utils",
              "pybullet_utils.bullet_client", "cv2", "imageio", "gym", "pydrake",
              "mpl_toolkits", "mpl_toolkits.mplot3d", "skimage",
              "torchvision", "yaml", "dreal"):
        if n not in sys.modules:
            sys.modules[n] = DummyModule(n)
            sys.modules[n].__path__ = []
    if symbolic:
        from . import shim_torch, shim_numpy
        mods = shim_torch.build()
        sys.modules.update(mods)
        shim_numpy.install()
        from . import cvx_core
        sys.modules["cvxpy"] = cvx_core.build()
        for n in ("scipy", "scipy.integrate", "scipy.linalg",
                  "scipy.stats", "scipy.optimize"):
            sys.modules[n] = DummyModule(n)
            sys.modules[n].__path__ = []
        for n in ("integrate.solve_ivp", ):
            # a name contracts may replace
            a, b = n.split(".")
            setattr(sys.modules["scipy." + a], b, _dummy("scipy." + n))
            setattr(sys.modules["scipy"], a, sys.modules["scipy." + a])
        mm = types.ModuleType("math")
        mm.__dict__.update(math.__dict__)

        def wrap(n, f):

            def g(x, *a):
                from .sym import Sc
                if hasattr(x, "_is_tensor"):
                    x = x.item()
                if isinstance(x, Sc) and not x.is_const():
                    return f(x)
                return getattr(math, n)(builtins.float(x), *a)

            mm.__dict__[n] = g

        wrap("sin", lambda x: x.sin())
        wrap("cos", lambda x: x.cos())
        wrap("tan", lambda x: x.tan())
        wrap("sqrt", lambda x: x.sqrt())
        wrap("exp", lambda x: x.exp())
        wrap("isinf", lambda x: False)
        wrap("isnan", lambda x: False)
        _MATH.append(mm)
    else:
        sys.modules["torch.utils.tensorboard"] = DummyModule(
            "torch.utils.tensorboard")
        _wrap_cvxpy()
    sys.meta_path.insert(0, _Finder({PKG: REPO, "contracts": VERIF}))
    if symbolic:
        _wrap_import()


def _wrap_cvxpy():
    """The repository's cvxpy problems go to the solver stand-in."""
    from . import cvx_core
    real_import = builtins.__import__
    std = cvx_core.build()

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == "cvxpy" and level == 0 and (globals or {}).get(
                "__name__", "").startswith((PKG, "contracts")):
            return std
        return real_import(name, globals, locals, fromlist, level)

    builtins.__import__ = imp


_MATH = []


def _wrap_import():
    """numpy / math as seen by repository and contract modules only."""
    from . import shim_numpy
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        who = (globals or {}).get("__name__", "")
        if level == 0 and (who.startswith(PKG) or
                           who.startswith("contracts")):
            if name == "numpy":
                return shim_numpy.NP
            if name == "math":
                return _MATH[0]
        return real_import(name, globals, locals, fromlist, level)

    builtins.__import__ = imp


def mod(name):
    return importlib.import_module(PKG + "." + name)
