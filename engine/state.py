"""Module level state of the code under contract: what a call may leave behind for the next one.

Covers module variables, mutable default arguments, function attributes and functools caches."""
import copy
import types

_SKIP = (types.ModuleType, type, types.BuiltinFunctionType, str, bytes, int, float, bool, type(None))


def _mutable(v):
    return not isinstance(v, _SKIP + (tuple, frozenset, complex)) and (
        isinstance(v, (dict, list, set)) or hasattr(v, "__array_interface__") or hasattr(v, "__dict__"))


def _copy(v):
    try:
        return copy.deepcopy(v)
    except Exception:
        return None


def _fp(v):
    """fingerprint of a value"""
    if isinstance(v, (dict, list, set)) or hasattr(v, "__array_interface__"):
        return repr(v)
    if isinstance(getattr(v, "__dict__", None), dict):
        return repr(v.__dict__)
    return repr(v)


def _refill(v, c):
    """put the content of the copy c back into v"""
    if c is None:
        return
    c = _copy(c)
    if isinstance(v, dict):
        v.clear()
        v.update(c)
    elif isinstance(v, list):
        list.__init__(v, c)
    elif isinstance(v, set):
        v.clear()
        v.update(c)
    elif hasattr(v, "__array_interface__"):
        try:
            v[...] = c
        except (ValueError, TypeError):
            pass
    if isinstance(getattr(v, "__dict__", None), dict):
        v.__dict__.clear()
        v.__dict__.update(c.__dict__)


def _functions(v):
    """v and what it wraps"""
    out = []
    while v is not None and v not in out and callable(v) and len(out) < 5:
        out.append(v)
        v = getattr(v, "__wrapped__", None)
    return [f for f in out if isinstance(f, types.FunctionType) or hasattr(f, "cache_clear")]


class State:
    def __init__(self):
        self.seen = {}

    def sync(self, mods):
        """remember the state of modules not met before, as their import left them"""
        for name, m in mods.items():
            if m is None or name in self.seen:
                continue
            vals = {}
            fns = []
            for k, v in list(m.__dict__.items()):
                if k.startswith("__"):
                    continue
                if callable(v) and not isinstance(v, type):
                    if getattr(v, "__module__", None) == name:
                        fns.extend(_functions(v))
                    if not isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) and not hasattr(v, "cache_clear"):
                        continue
                    vals[k] = (v, None)
                elif type(v).__module__.startswith("engine"):
                    if type(v).__name__ in ("MList", "SymArr", "CArr"):
                        vals[k] = (v, _copy(v))
                else:
                    vals[k] = (v, _copy(v) if _mutable(v) and not isinstance(v, types.ModuleType) else None)
            self.seen[name] = (m, vals, [(f, self._fcopy(f)) for f in fns])

    @staticmethod
    def _fcopy(f):
        d = getattr(f, "__defaults__", None) or ()
        kd = getattr(f, "__kwdefaults__", None) or {}
        ds = [(v, _copy(v)) for v in list(d) + list(kd.values()) if isinstance(v, (dict, list, set))]
        at = {k: v for k, v in getattr(f, "__dict__", {}).items() if k not in ("__wrapped__", "__real__")} if isinstance(f, types.FunctionType) else {}
        return ds, at, _copy(at)

    def restore(self):
        for m, vals, fns in self.seen.values():
            g = m.__dict__
            for k in [k for k in g if k not in vals and not k.startswith("__")]:
                v = g[k]
                if not isinstance(v, types.ModuleType) and not callable(v) and not type(v).__module__.startswith("engine"):
                    del g[k]
            for k, (v, c) in vals.items():
                if g.get(k) is not v:
                    g[k] = v
                if c is not None:
                    if isinstance(v, (dict, list, set)) and not hasattr(v, "__dict__") and v == c:
                        continue
                    _refill(v, c)
            for f, (ds, at, ac) in fns:
                for v, c in ds:
                    _refill(v, c)
                if isinstance(f, types.FunctionType):
                    keep = {k: v for k, v in f.__dict__.items() if k in ("__wrapped__", "__real__")}
                    f.__dict__.clear()
                    f.__dict__.update(keep)
                    f.__dict__.update(_copy(ac) if ac is not None else at)
                if hasattr(f, "cache_clear"):
                    f.cache_clear()

    def changed(self):
        """names of the state that differs from the state after import"""
        out = []
        for name, (m, vals, fns) in self.seen.items():
            g = m.__dict__
            for k, v in g.items():
                if k.startswith("__") or k in vals:
                    continue
                if not isinstance(v, types.ModuleType) and not callable(v) and not type(v).__module__.startswith("engine"):
                    out.append("%s.%s" % (name, k))
            for k, (v, c) in vals.items():
                if g.get(k) is not v:
                    out.append("%s.%s" % (name, k))
                elif c is not None and _fp(v) != _fp(c):
                    out.append("%s.%s" % (name, k))
            for f, (ds, at, ac) in fns:
                if any(_fp(v) != _fp(c) for v, c in ds):
                    out.append("default arguments of %s" % f.__name__)
                if isinstance(f, types.FunctionType):
                    now = {k: v for k, v in f.__dict__.items() if k not in ("__wrapped__", "__real__")}
                    if repr(now) != repr(ac if ac is not None else at):
                        out.append("attributes of %s" % f.__name__)
                if hasattr(f, "cache_info") and f.cache_info().currsize:
                    out.append("cache of %s" % f.__name__)
        return sorted(set(out))
