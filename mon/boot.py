"""Makes `import rankeval` use the Python sources of /repo and the extensions built out-of-tree."""
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import sys
import warnings

from .build import EXTS, REPO

loaded = {}


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, build_dir):
        self.table = {}
        for mod, _ in EXTS.values():
            self.table[mod] = os.path.join(build_dir, mod.rsplit(".", 1)[1] + ".so")

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loaded[name] = so
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def boot(build_dir):
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(build_dir))
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    import rankeval
    assert os.path.abspath(rankeval.__file__).startswith(REPO + os.sep), rankeval.__file__
    return rankeval


class _Optimizing(importlib.abc.MetaPathFinder):
    """Compiles the modules of rankeval as `python -O` does, without its assertions (-O itself
    would compile again every library at every start)."""

    def find_spec(self, name, path=None, target=None):
        if name != "rankeval" and not name.startswith("rankeval."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader.source_to_code = lambda data, where: compile(
                data, where, "exec", dont_inherit=True, optimize=1)
            spec.loader.get_code = lambda module: spec.loader.source_to_code(
                spec.loader.get_data(spec.origin), spec.origin)
        return spec


def elsewhere():
    """Another environment: assertions disabled, and a locale whose decimal separator is a comma
    (set by the application, as graphical toolkits do). To be called before boot()."""
    import locale
    sys.meta_path.insert(0, _Optimizing())
    try:
        locale.setlocale(locale.LC_ALL, "comma.utf8")
    except locale.Error:
        return False
    assert locale.localeconv()["decimal_point"] == ","
    return True


class _Bar(object):
    """Progress bar of a notebook, as picky about its values as the one of ipywidgets."""
    made, steps, shown, closed = 0, 0, 0, 0

    def __init__(self, value=0, min=0, max=100, description="", **kw):
        for v in (value, min, max):
            self.integer(v)
        if min > max:
            raise ValueError("setting min > max")
        self.__dict__.update(min=min, max=max, description=description, _value=value,
                             bar_style="", open=True)
        type(self).made += 1

    @staticmethod
    def integer(v):
        import numbers
        if not isinstance(v, numbers.Integral):
            raise TypeError("the value of a progress bar must be an integer: %r" % (v,))

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        self.integer(v)
        self.__dict__["_value"] = max(self.min, min(self.max, v))
        type(self).steps += 1

    def __setattr__(self, k, v):
        if k == "bar_style" and v not in ("", "success", "info", "warning", "danger"):
            raise ValueError("invalid style %r" % (v,))
        object.__setattr__(self, k, v)

    def close(self):
        type(self).closed += 1


def notebook():
    """Makes the analyses see a Jupyter notebook (stand-ins for IPython and ipywidgets, which are
    not installed here): they draw progress bars then, and must compute the same."""
    import types
    ipython, disp = types.ModuleType("IPython"), types.ModuleType("IPython.display")
    widgets = types.ModuleType("ipywidgets")
    shell = type("ZMQInteractiveShell", (object,), {})()
    ipython.get_ipython = lambda: shell
    ipython.display = disp

    def display(*objs, **kw):
        for o in objs:
            assert isinstance(o, _Bar), o
            _Bar.shown += 1
    disp.display = display
    widgets.IntProgress = _Bar
    stubs = {"IPython": ipython, "IPython.display": disp, "ipywidgets": widgets}
    sys.modules.update(stubs)
    try:
        import rankeval.analysis.effectiveness                  # noqa: F401
        import rankeval.analysis.statistical                    # noqa: F401
    finally:
        # other libraries look for IPython as well: only rankeval is to see it
        for k in stubs:
            sys.modules.pop(k, None)
    return _Bar
