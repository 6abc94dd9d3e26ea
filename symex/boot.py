"""Set up the interpreter: /repo first on the path, stubs before eckity."""
import ast
import importlib
import logging
import os
import pkgutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _no_stale_bytecode():
    """Always compile the sources under REPO afresh."""
    import importlib._bootstrap_external as be
    orig = be.cache_from_source

    def cache_from_source(path, *a, **k):
        if os.path.abspath(path).startswith(os.path.abspath(REPO) + os.sep):
            raise NotImplementedError
        return orig(path, *a, **k)
    be.cache_from_source = cache_from_source


class _Sets(ast.NodeTransformer):
    """`{a, b}` and `{f(x) for x in y}` become `set([..])`, so that the order
    in which a set is iterated is the environment's here too."""

    def _call(self, node, inner):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.copy_location(ast.Name("set", ast.Load()), node),
            args=[ast.copy_location(inner(node), node)], keywords=[]), node)

    def visit_Set(self, node):
        return self._call(node, lambda n: ast.List(n.elts, ast.Load()))

    def visit_SetComp(self, node):
        return self._call(node, lambda n: ast.ListComp(n.elt, n.generators))


def _plain_sets():
    from importlib.machinery import SourceFileLoader
    orig = SourceFileLoader.source_to_code

    def source_to_code(self, data, path, *a, **k):
        if os.path.abspath(str(path)).startswith(
                os.path.abspath(REPO) + os.sep):
            data = _Sets().visit(ast.parse(data))
        return orig(self, data, path, *a, **k)
    SourceFileLoader.source_to_code = source_to_code


def boot(symbolic):
    sys.dont_write_bytecode = True
    _no_stale_bytecode()
    _plain_sets()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if symbolic and Z3_SITE not in sys.path:
        sys.path.append(Z3_SITE)
    # libraries first: they must see the genuine random module
    import numpy  # noqa
    import scipy.special  # noqa
    import sklearn.base  # noqa
    import sklearn.metrics  # noqa
    import sklearn.utils.validation  # noqa
    import overrides  # noqa
    from symex import stubs
    stubs.install()
    import eckity
    if not os.path.abspath(eckity.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"eckity imported from {eckity.__file__}")
    failed = []
    for m in pkgutil.walk_packages(eckity.__path__, "eckity."):
        if ".tests" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception as e:  # reported by the harness that needs it
            failed.append((m.name, repr(e)))
    stubs.install_target()
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(4000)
    return failed
