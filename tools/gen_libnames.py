"""Run once with the analysed environment's Python: freezes the public names and
signatures of the third-party and standard modules the package may use."""
import importlib, inspect, json, types, sys, builtins
mods = ["numpy","numpy.linalg","numpy.random","numpy.ma","numpy.fft","numpy.core","numpy.testing","scipy","scipy.linalg","scipy.linalg.blas","scipy.linalg.lapack","scipy.sparse","scipy.sparse.linalg",
 "scipy.optimize","scipy.integrate","scipy.special","scipy.interpolate","math","cmath","time","logging","copy","warnings","os","os.path","sys",
 "itertools","functools","operator","tempfile","string","numbers","fractions","random","collections","pickle","json","re","io","datetime","traceback","types","threading","multiprocessing","multiprocessing.pool","contextlib","abc","struct","shutil"]
out = {"mods": {}, "sigs": {}, "types": {}, "builtins": sorted(dir(builtins))}
for m in mods:
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        continue
    names = sorted(set(dir(mod)) | set(vars(mod)))
    out["mods"][m] = names
    for n in names:
        o = getattr(mod, n, None)
        if n.startswith("_") or not callable(o):
            continue
        try:
            s = inspect.signature(o)
        except Exception:
            continue
        ps = [[p.name, str(p.kind), p.default is not inspect.Parameter.empty] for p in s.parameters.values()]
        out["sigs"][m + "." + n] = ps
for n in dir(builtins):
    o = getattr(builtins, n)
    if callable(o):
        try:
            s = inspect.signature(o)
        except Exception:
            continue
        out["sigs"]["builtins." + n] = [[p.name, str(p.kind), p.default is not inspect.Parameter.empty] for p in s.parameters.values()]
import numpy as np, scipy.sparse.linalg as sl
for nm, t in [("ndarray", np.ndarray), ("list", list), ("tuple", tuple), ("str", str), ("dict", dict), ("float", float), ("int", int), ("complex", complex),
   ("bool", bool), ("set", set), ("npscalar", np.complex128), ("file", type(sys.stdout)), ("LinearOperator", sl.LinearOperator), ("NoneType", type(None)), ("function", types.FunctionType),
   ("logger", __import__("logging").Logger), ("ode", __import__("scipy.integrate").integrate.ode), ("generator", types.GeneratorType), ("dtype", np.dtype), ("exception", ArithmeticError), ("flatiter", np.flatiter), ("flagsobj", type(np.zeros(1).flags)), ("finfo", np.finfo), ("RandomState", np.random.RandomState), ("nditer", np.nditer),("handler", __import__("logging").Handler)]:
    out["types"][nm] = sorted(set(dir(t)) | set(getattr(t, "__dict__", {})))
import scipy.integrate as si
out["types"]["finfo"] = sorted(set(out["types"]["finfo"]) | set(vars(np.finfo(np.complex128))) | {"eps", "resolution", "tiny", "max", "min", "epsneg"})
out["types"]["ode"] = sorted(set(out["types"]["ode"]) | set(vars(si.ode(lambda t, y: y))) | {"t", "y"})
out["types"]["RK45"] = sorted(set(dir(si.RK45)) | set(vars(si.RK45(lambda t, y: y, 0, np.ones(1), 1.))))
import scipy.optimize as so
out["types"]["OptimizeResult"] = sorted(set(dir(so.OptimizeResult)) | {"x", "fun", "success", "message", "nfev", "nit", "status", "jac"})
out["types"]["property"] = dir(property)
for k in ("ode","finfo"):
    pass
json.dump(out, open(sys.argv[1], "w"), indent=0, sort_keys=True)
