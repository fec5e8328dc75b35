"""Names, kinds and signatures of the pinned libraries -> ipm/libtable.json (run once with the project's python)."""
import importlib, inspect, json, os, sys, warnings

warnings.simplefilter("ignore")
MODS = """numpy numpy.linalg numpy.random numpy.fft numpy.ma numpy.lib.stride_tricks numpy.polynomial numpy.testing
scipy scipy.sparse scipy.sparse.linalg scipy.linalg scipy.special scipy.constants scipy.integrate scipy.interpolate scipy.optimize
sympy.physics.wigner sympy.physics.quantum.cg mpi4py mpi4py.MPI bitarray bitarray.util h5py matplotlib matplotlib.pyplot matplotlib.colors
matplotlib.cm matplotlib.ticker
math cmath itertools collections collections.abc functools operator os os.path sys time pickle json argparse copy string typing pathlib bisect
contextlib dataclasses enum random re warnings struct io heapq abc textwrap logging numbers fractions decimal datetime types inspect
traceback tempfile shutil glob csv array gc platform subprocess signal hashlib base64 zlib queue threading weakref pprint""".split()
TYPES = {
    "ndarray": "numpy.ndarray", "csr": "scipy.sparse.csr_matrix", "csc": "scipy.sparse.csc_matrix", "Intracomm": "mpi4py.MPI.Intracomm",
    "bitarray": "bitarray.bitarray", "File": "h5py.File", "ArgumentParser": "argparse.ArgumentParser", "OrderedDict": "collections.OrderedDict",
    "dict": "builtins.dict", "list": "builtins.list", "str": "builtins.str", "tuple": "builtins.tuple", "int": "builtins.int",
    "bytes": "builtins.bytes", "bytearray": "builtins.bytearray", "set": "builtins.set", "Counter": "collections.Counter",
    "defaultdict": "collections.defaultdict", "Request": "mpi4py.MPI.Request", "frozenset": "builtins.frozenset", "float": "builtins.float",
    "complex": "builtins.complex", "Status": "mpi4py.MPI.Status", "npz": "numpy.lib.npyio.NpzFile", "bool": "builtins.bool",
}


def sig(o):
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    pos, kwo, req, va, vk = [], [], [], False, False
    for p in s.parameters.values():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            pos.append(("/" if p.kind == p.POSITIONAL_ONLY else "") + p.name)
        elif p.kind == p.KEYWORD_ONLY:
            kwo.append(p.name)
        elif p.kind == p.VAR_POSITIONAL:
            va = True
        else:
            vk = True
        if p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY):
            req.append(p.name)
    return [pos, kwo, req, va, vk]


def main():
    out = {"modules": {}, "types": {}, "versions": {}}
    for n in MODS:
        m = importlib.import_module(n)
        d = {}
        for a in sorted(set(dir(m)) | {x for x in MODS if x.startswith(n + ".") and "." not in x[len(n) + 1:]} and dir(m)):
            try:
                o = getattr(m, a)
            except Exception:
                continue
            if n == "sympy" and a.startswith("_"):
                continue
            if inspect.ismodule(o):
                d[a] = "m"
            elif callable(o):
                s = sig(o) if not isinstance(o, type) or n.split(".")[0] in ("argparse", "bitarray", "collections") else None
                d[a] = ["c", s] if s else "c"
            else:
                d[a] = "o"
        out["modules"][n] = d
    for k, p in TYPES.items():
        mod, _, c = p.rpartition(".")
        cls = getattr(importlib.import_module(mod), c)
        out["types"][k] = {a: ((["c", sig(getattr(cls, a))]) if callable(getattr(cls, a, None)) and sig(getattr(cls, a)) else
                               "c" if callable(getattr(cls, a, None)) else "o")
                           for a in sorted(dir(cls)) if not a.startswith("__")}
    for n in ("numpy", "scipy", "sympy", "mpi4py", "bitarray", "h5py", "matplotlib"):
        out["versions"][n] = importlib.import_module(n).__version__
    out["versions"]["python"] = sys.version.split()[0]
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ipm", "libtable.json")
    with open(p, "w") as f:
        json.dump(out, f, separators=(",", ":"), sort_keys=True)


main()
