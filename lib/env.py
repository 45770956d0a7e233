"""Environment of a shard: makes randomness deterministic, replaces the process pool by an
in-process stand-in which still pickles everything that would cross the process boundary, and imports jajapy from
the current working tree of the repository (never from cached byte code)."""
import importlib, importlib.machinery, os, pickle, random, sys
import multiprocessing, multiprocessing.pool

REPO = os.environ.get("VERIF_REPO", "/repo")

# ---------------------------------------------------------------- randomness
_state = {"base": 0, "count": 0}
_py_seed = random.seed


def reseed(base):
    import numpy.random
    _state["base"], _state["count"] = base, 0
    _py_seed(base)
    _np_seed(base % (2 ** 32))


def _next():
    _state["count"] += 1
    return (_state["base"] * 1000003 + _state["count"] * 7919 + 17) % (2 ** 32)


def _random_seed(a=None, version=2):
    return _py_seed(_next() if a is None else a, version)


def _numpy_seed(seed=None):
    return _np_seed(_next() if seed is None else seed)


# ---------------------------------------------------------------- process pool
POOL_STATS = {"tasks": 0, "pools": 0}
RealPool = multiprocessing.Pool


class _Res:
    def __init__(self, f):
        self.err = None
        try:
            self.val = f()
        except Exception as e:  # noqa
            self.err = e

    def get(self, timeout=None):
        if self.err is not None:
            raise self.err
        return self.val

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.err is None


class InlinePool:
    """Same interface as multiprocessing.Pool; every task works on pickled copies, as in another process."""

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        POOL_STATS["pools"] += 1
        if initializer:
            initializer(*initargs)

    def _call(self, func, args, kw):
        POOL_STATS["tasks"] += 1
        func, args, kw = pickle.loads(pickle.dumps((func, tuple(args), dict(kw or {}))))
        return pickle.loads(pickle.dumps(func(*args, **kw)))

    def apply(self, func, args=(), kwds=None):
        return self._call(func, args, kwds)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = _Res(lambda: self._call(func, args, kwds))
        if r.err is None and callback:
            callback(r.val)
        if r.err is not None and error_callback:
            error_callback(r.err)
        return r

    def map(self, func, it, chunksize=None):
        return [self._call(func, (x,), None) for x in it]

    def starmap(self, func, it, chunksize=None):
        return [self._call(func, x, None) for x in it]

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return _Res(lambda: self.map(func, it))

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return _Res(lambda: self.starmap(func, it))

    def imap(self, func, it, chunksize=1):
        return iter(self.map(func, it))

    imap_unordered = imap

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ---------------------------------------------------------------- import of jajapy
class _NoCache(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _hook(path):
    if os.path.abspath(path).startswith(REPO):
        return importlib.machinery.FileFinder(path, (_NoCache, [".py"]))
    raise ImportError


MODE = "multi"


def setup(mode="multi", inline_pool=True):
    """mode 'multi': the code takes the branch using process pools; 'one': the single-process branch (the one it
    takes on Windows and macOS)."""
    global _np_seed, MODE
    MODE = mode
    import numpy, numpy.random, numpy.polynomial.polynomial, scipy.stats, sympy, alive_progress  # noqa
    import stormpy, stormpy.storage  # noqa
    import concurrent.futures, tempfile, subprocess, asyncio  # noqa
    _np_seed = numpy.random.seed
    numpy.random.seed = _numpy_seed
    random.seed = _random_seed
    if inline_pool:
        multiprocessing.Pool = InlinePool
        multiprocessing.pool.Pool = InlinePool
        multiprocessing.cpu_count = lambda: 4
        os.cpu_count = lambda: 4
    sys.path_hooks.insert(0, _hook)
    sys.path.insert(0, REPO)
    sys.path_importer_cache.clear()
    real = sys.platform
    if mode == "one":
        sys.platform = "win32"
    try:
        import jajapy
    finally:
        sys.platform = real
    assert os.path.abspath(jajapy.__file__).startswith(REPO), jajapy.__file__
    return jajapy
