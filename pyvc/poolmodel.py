"""Assumed contract of multiprocessing.Pool: every submitted call returns what the call itself returns."""
from cyparse import Unsupported
from exec import Builtin, LibModule, LibObj, SymSeq


def _args(ex, v, st):
    return list(ex.items(v, st)) if v is not None else []


class Result(LibObj):
    def __init__(self, value):
        self.value = value

    def hasattr(self, name):
        return name in ("get", "wait", "ready", "successful")

    def getattr(self, ex, st, name, node):
        if name == "get":
            return Builtin("AsyncResult.get", lambda e, s, a, k, n: self.value)
        if name == "wait":
            return Builtin("AsyncResult.wait", lambda e, s, a, k, n: None)
        raise Unsupported("AsyncResult.%s" % name)


class Pool(LibObj):
    def hasattr(self, name):
        return name in ("apply_async", "apply", "map", "starmap", "imap", "close", "join", "terminate")

    def enter(self, ex, st):
        return self

    def getattr(self, ex, st, name, node):
        ex.assumed.add("multiprocessing.Pool: the result of a submitted call is what the call itself returns on the same arguments; results keep the order of submission")
        if name in ("close", "join", "terminate"):
            return Builtin("Pool." + name, lambda e, s, a, k, n: None)
        if name in ("apply_async", "apply"):
            def go(e, s, a, k, n):
                if set(k) - {"args", "kwds"} or len(a) > 3:
                    raise Unsupported("Pool.%s options" % name)
                xs = a[1] if len(a) > 1 else k.get("args")
                kw = a[2] if len(a) > 2 else k.get("kwds")
                v = e.call(a[0], _args(e, xs, s), dict(s.heap[kw.id]) if kw is not None else {}, s, n)
                return Result(v) if name == "apply_async" else v
            return Builtin("Pool." + name, go)
        if name in ("map", "starmap", "imap"):
            def go(e, s, a, k, n):
                from npmodel import as_seq
                m, f = as_seq(e, a[1], s)
                one = lambda x: e.call(a[0], _args(e, x, s) if name == "starmap" else [x], {}, s, n)  # noqa: E731
                return SymSeq(m, lambda j: one(f(j)))
            return Builtin("Pool." + name, go)
        raise Unsupported("Pool.%s" % name)


def libs():
    return {"multiprocessing": LibModule("multiprocessing", {"Pool": Builtin("Pool", lambda e, s, a, k, n: Pool()), "cpu_count": Builtin("cpu_count", None)}),
            "multiprocessing.pool": LibModule("multiprocessing.pool", {"Pool": Builtin("Pool", lambda e, s, a, k, n: Pool())})}
