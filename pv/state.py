"""State that outlives a call.

A contract speaks about every call, whatever calls came before.  The symbolic run starts from the modules as they are
right after import (and from objects as their constructors leave them), which covers every call only if no call changes
that state.  So after every path the state is compared with what it was; a difference makes the case `unsupported`,
and the property is then decided there by the native search, which makes many calls in one process."""
import collections
import types

import numpy as np

ATOM = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))


def fp(x, pkg, seen, depth=0):
    if isinstance(x, ATOM):
        return x
    i = id(x)
    t = type(x)
    if i in seen or depth > 8:
        return i
    if t.__module__.startswith("pv.") and not isinstance(x, np.ndarray):
        return i
    if isinstance(x, types.ModuleType):
        return i
    if isinstance(x, np.ndarray):
        seen.add(i)
        if x.dtype != object:
            return i, x.tobytes()
        return i, x.shape, tuple(v if isinstance(v, ATOM) else id(v) for v in x.flat)
    if isinstance(x, dict):
        seen.add(i)
        return i, tuple((fp(k, pkg, seen, depth + 1), fp(v, pkg, seen, depth + 1)) for k, v in list(x.items()))
    if isinstance(x, (list, tuple, collections.deque)):
        seen.add(i)
        return i, tuple(fp(v, pkg, seen, depth + 1) for v in list(x))
    if isinstance(x, (set, frozenset)):
        seen.add(i)
        return i, frozenset(v if isinstance(v, ATOM) else id(v) for v in x)
    if isinstance(x, bytearray):
        return i, bytes(x)
    if hasattr(t, "cache_info"):
        return i, x.cache_info().currsize, fp(getattr(x, "__wrapped__", None), pkg, seen, depth + 1)
    if isinstance(x, (staticmethod, classmethod)):
        return fp(x.__func__, pkg, seen, depth + 1)
    if isinstance(x, property):
        return tuple(fp(f, pkg, seen, depth + 1) for f in (x.fget, x.fset, x.fdel))
    if isinstance(x, types.FunctionType):
        if not (x.__module__ or "").startswith(pkg):
            return i
        seen.add(i)
        cells = []
        for c in x.__closure__ or ():
            try:
                cells.append(fp(c.cell_contents, pkg, seen, depth + 1))
            except ValueError:
                cells.append(None)
        return (i, tuple(cells), fp(x.__defaults__, pkg, seen, depth + 1) if x.__defaults__ else None,
                fp(x.__kwdefaults__, pkg, seen, depth + 1) if x.__kwdefaults__ else None,
                fp(x.__dict__, pkg, seen, depth + 1) if x.__dict__ else None)
    if isinstance(x, type):
        if not x.__module__.startswith(pkg):
            return i
        seen.add(i)
        return i, tuple((k, fp(v, pkg, seen, depth + 1)) for k, v in list(vars(x).items()) if k not in ("__dict__", "__weakref__", "__doc__"))
    if t.__module__.startswith(pkg):
        seen.add(i)
        d = getattr(x, "__dict__", None)
        s = [getattr(x, n, None) for c in t.__mro__ for n in getattr(c, "__slots__", ()) if isinstance(n, str)]
        return i, fp(d, pkg, seen, depth + 1) if d is not None else None, tuple(fp(v, pkg, seen, depth + 1) for v in s)
    if hasattr(t, "__next__"):
        return i, repr(x)
    return i


def containers(x, pkg, seen, out, depth=0):
    """everything reachable that can be put back as it was"""
    i = id(x)
    if isinstance(x, ATOM + (types.ModuleType,)) or i in seen or depth > 8:
        return
    seen.add(i)
    t = type(x)
    if isinstance(x, np.ndarray):
        out.append((x, x.copy()))
    elif isinstance(x, (dict, list, set, collections.deque, bytearray)):
        out.append((x, x.copy()))
        for v in list(x.values()) if isinstance(x, dict) else list(x):
            containers(v, pkg, seen, out, depth + 1)
    elif isinstance(x, (tuple, frozenset)):
        for v in x:
            containers(v, pkg, seen, out, depth + 1)
    elif hasattr(t, "cache_info"):
        out.append((x, None))
        containers(getattr(x, "__wrapped__", None), pkg, seen, out, depth + 1)
    elif isinstance(x, (staticmethod, classmethod)):
        containers(x.__func__, pkg, seen, out, depth + 1)
    elif isinstance(x, types.FunctionType):
        if (x.__module__ or "").startswith(pkg):
            for v in [x.__dict__, x.__defaults__, x.__kwdefaults__]:
                containers(v, pkg, seen, out, depth + 1)
            for c in x.__closure__ or ():
                try:
                    containers(c.cell_contents, pkg, seen, out, depth + 1)
                except ValueError:
                    pass
    elif isinstance(x, type):
        if x.__module__.startswith(pkg):
            out.append((x, dict(vars(x))))
            for v in list(vars(x).values()):
                containers(v, pkg, seen, out, depth + 1)
    elif t.__module__.startswith(pkg) and hasattr(x, "__dict__"):
        containers(x.__dict__, pkg, seen, out, depth + 1)


def save(m, pkg):
    out, seen = [], set()
    for k, v in list(vars(m).items()):
        if not k.startswith("__"):
            containers(v, pkg, seen, out)
    return {k: v for k, v in vars(m).items()}, out


def restore(m, saved):
    names, out = saved
    for k in [k for k, v in vars(m).items() if k not in names and not isinstance(v, types.ModuleType)]:
        delattr(m, k)
    for k, v in names.items():
        if vars(m).get(k) is not v:
            setattr(m, k, v)
    for x, c in out:
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                x[...] = c
            else:
                np.copyto(np.asarray(x), np.asarray(c))
        elif isinstance(x, dict):
            x.clear()
            x.update(c)
        elif isinstance(x, set):
            x.clear()
            x.update(c)
        elif isinstance(x, (list, bytearray)):
            x[:] = c
        elif isinstance(x, collections.deque):
            x.clear()
            x.extend(c)
        elif isinstance(x, type):
            for k in [k for k in vars(x) if k not in c]:
                delattr(x, k)
            for k, v in c.items():
                if vars(x).get(k) is not v:
                    setattr(x, k, v)
        else:
            x.cache_clear()


def of_module(m, pkg):
    seen = set()
    return {k: fp(v, pkg, seen) for k, v in list(vars(m).items())
            if not k.startswith("__") and not isinstance(v, types.ModuleType)}


def of_object(o, pkg, skip=()):
    seen = {id(o)}
    return {k: fp(v, pkg, seen) for k, v in list(getattr(o, "__dict__", {}).items()) if k not in skip}


def changed(old, new):
    """the names whose state differs (a name that is new counts)"""
    return sorted(k for k in set(old) | set(new) if k not in old or k not in new or old[k] != new[k])
