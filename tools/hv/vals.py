"""Values and scenarios in the JSON form shared by the specification and the driver."""
import json


def S(x): return {"s": x}
def I(x): return {"i": x}
def B(x): return {"b": x}
def F(x): return {"f": x}
def N(): return {"n": "null"}
def A(*xs): return {"a": list(xs)}


def M(*pairs, **kw):
    """M(('k', v), ...): a map. Keys that are python strings become string values."""
    ps = [[S(k) if isinstance(k, str) else k, v] for k, v in pairs]
    ps += [[S(k), v] for k, v in kw.items()]
    return {"m": ps}


def V(x):
    """python -> value. Dicts that already are values are kept when they are wrapped in Raw."""
    if isinstance(x, Raw):
        return x.v
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, float):
        return F(repr(x))
    if isinstance(x, str):
        return S(x)
    if x is None:
        return N()
    if isinstance(x, (list, tuple)):
        return {"a": [V(e) for e in x]}
    if isinstance(x, dict):
        return {"m": [[V(k), V(v)] for k, v in x.items()]}
    raise TypeError(type(x))


class Raw:
    def __init__(self, v):
        self.v = v


def doc(x):
    """content of a file with a well formed document"""
    return {"v": V(x)}


def bad(text):
    return {"bad": text}


class Sc:
    """A scenario"""

    def __init__(self, sid, cmp=""):
        self.d = {"id": sid, "cmp": cmp, "env": {}, "fns": {}, "files": [], "ops": [], "meta": {}}

    def env(self, **kw):
        self.d["env"].update(kw)
        return self

    def fn(self, name, kind, beh, arg="", tab=None):
        self.d["fns"][name] = {"kind": kind, "beh": beh, "arg": arg, "tab": V(tab or {})}
        return self

    def file(self, path, content):
        self.d["files"].append(["/R/" + path, content if isinstance(content, dict) and ("v" in content or "bad" in content) and len(content) == 1 else doc(content)])
        return self

    def op(self, op, **kw):
        kw["op"] = op
        self.d["ops"].append(kw)
        return self

    def session(self, s="s", root="/R", **kw):
        if "cfg" not in kw:
            kw["root"] = root
        return self.op("session", s=s, **kw)

    def inv(self, i="i", s="s", **kw):
        if "scope" in kw:
            kw["scope"] = V(kw["scope"])
        return self.op("inv", i=i, s=s, **kw)

    def lookup(self, key, i="i", **kw):
        if "opts" in kw:
            kw["opts"] = V(kw["opts"])
        return self.op("lookup", i=i, key=key, **kw)

    def json(self):
        return json.dumps(self.d, separators=(",", ":"))
