"""Random worlds and histories. Everything is drawn from the random generator of the check."""
import json

from .vals import V, S, I, B, F, N, A, M, Raw, Sc, doc, bad

WORDS = ["alpha", "beta", "gamma", "delta", "x1", "Yes", "no", "42", "-7", "true", "é ü", "a.b", "it's", 'say "hi"',
         "back\\slash", "tab\there", "100%", "%", "{}", "%{", "$1", "$0", "\\1", "null", "~", "-", " ", "  padded ", "日本", "a:b",
         "key: value", "#c", "", "0x10", "1.5", "[1]", "{a: 1}", "line\nbreak", "&amp;", "<b>"]
SCALARS = [True, False, 0, 1, 2, -1, 42, 2147483647, "", "a", "b", "c", None, 1.5, "1", "true"]


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.f = dict(levels=(1, 4), keys=6, depth=2, interp=0.3, lo=0.5, conv=0.2, fns=0.4, explain=0.3, mods=0.0,
                      nulls=True, errs=0.15, scope=0.7, words=0.3, ops=(6, 14), mux=0.15, requested=0.25, dig=0.3)
        self.f.update(kw)
        self.dialect = "dgo"

    def p(self, name):
        return self.r.random() < self.f[name]

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    # ---- values ---------------------------------------------------------
    def scalar(self, null=True):
        r = self.r.random()
        if r < self.f["words"]:
            return self.pick(WORDS)
        if r < 0.6:
            return self.pick(["a", "b", "c", "d"])
        x = self.pick(SCALARS)
        while x is None and not (null and self.f["nulls"]):
            x = self.pick(SCALARS)
        return x

    def value(self, depth=None, inarr=False):
        d = self.f["depth"] if depth is None else depth
        r = self.r.random()
        if d == 0 or r < 0.4:
            v = self.scalar(null=not inarr)
        elif r < 0.7:
            v = [self.value(d - 1, True) for _ in range(self.r.randrange(4))]
            if v and self.r.random() < 0.25:
                v.append(self.pick(v))
        else:
            v = {}
            for _ in range(self.r.randrange(4)):
                v[self.pick(["a", "b", "c", "d", "1", "0", "x.y", "k 1"])] = self.value(d - 1, inarr)
        return v

    # ---- interpolations -------------------------------------------------
    def expr(self, top=True):
        r = self.r.random()
        k = self.ref()
        sp = self.pick(["", "", "", " "])
        q = self.pick(["'", '"'])
        if q in k:
            q = "'" if q == '"' else '"'
        if r < 0.35:
            return "%{" + sp + self.var() + sp + "}"
        if r < 0.6:
            return "%{" + sp + self.pick(["lookup", "lookup", "hiera"]) + "(" + q + k + q + ")" + sp + "}"
        if r < 0.68:
            return "%{scope(" + q + self.var().replace(q, "") + q + ")}"
        if r < 0.76:
            return "%{literal(" + q + self.pick(["%", "lit", "a.b", "}x"[1:], "{", "$1"]) + q + ")}"
        if r < 0.84:
            return self.pick(["%{}", "%{ }", "%{::}", "%{''}", '%{""}', '%{"::"}', "%{'::'}"])
        if r < 0.98 or not self.p("errs"):
            return "%{" + self.pick(["alias", "strict_alias"]) + "(" + q + k + q + ")}"
        return self.pick(["%{nosuch('a')}", "%{a..b}", "%{lookup('a..b')}", "%{'unterminated}", "%{lookup(a)}", "%{0}", "%{lookup('')}",
                          "%{lookup('x)}", "%{.a}"])

    def istring(self):
        """a string that contains expressions"""
        e = self.expr()
        if "alias(" in e:
            if self.r.random() < 0.9 or not self.p("errs"):
                return e
            if self.r.random() < 0.3:
                return self.pick([" ", "", "\t"]) + e + self.pick([" ", "\n"])
        n = self.r.randrange(3)
        t = self.pick(["", "", "pre ", "a-", "100% "]) + e
        for _ in range(n):
            e = self.expr()
            if "alias(" not in e:
                t += self.pick(["", " ", "-mid-", " % "]) + e
        t += self.pick(["", "", " post", "%{", "}", "!"])
        # expressions must not be produced by the replacement (known finding)
        if "%'" in t or '%"' in t:
            t = t.replace("literal('%')", "literal('p')").replace('literal("%")', "literal('p')")
        return t

    def ivalue(self, depth=2):
        r = self.r.random()
        if depth == 0 or r < 0.6:
            return self.istring() if self.r.random() < 0.7 else self.scalar(null=False)
        if r < 0.8:
            return [self.ivalue(depth - 1) for _ in range(self.r.randrange(1, 3))]
        v = {}
        for _ in range(self.r.randrange(1, 3)):
            k = self.pick(["a", "b", "c"])
            if self.r.random() < 0.2:
                e = self.expr()
                if "alias(" not in e:
                    k = k + e
            v[k] = self.ivalue(depth - 1)
        return v

    # ---- names ----------------------------------------------------------
    KEYS = ["ka", "kb", "a::b", "a", "kab", "a::b::c", "kc", "kg", "k-h"]
    VARS = ["v1", "v2", "v3", "facts", "nested", "a::v"]

    def key(self):
        return self.KEYS[self.r.randrange(self.f["keys"])]

    def segs(self):
        return "".join("." + self.pick(["a", "b", "c", "0", "1", "2", "d", "'1'", "'x.y'", "-1", "a.b", "0.0", '"k 1"'])
                       for _ in range(self.pick([1, 1, 1, 2, 2, 3])))

    def ref(self):
        k = self.key()
        if self.p("dig"):
            k += self.segs()
        return k

    def var(self):
        v = self.pick(self.VARS)
        if self.r.random() < 0.3:
            v += self.pick([".a", ".b", ".0", ".a.b", ".1"])
        if self.r.random() < 0.1:
            v = "nosuchvar"
        return v

    # ---- worlds ---------------------------------------------------------
    def scope(self):
        m = {}
        for v in self.VARS:
            if self.r.random() < 0.5:
                r = self.r.random()
                if v == "facts" or v == "nested":
                    m[v] = {"a": self.pick(["l1", "l2", {"b": "deep"}]), "b": ["x", "y"]}
                elif r < 0.6:
                    m[v] = self.pick(["l1", "l2", "l3", "web"])
                elif r < 0.7:
                    m[v] = self.pick(["%{v1}", "%{v2} x", "%{nested.a}", "%{v3}"])
                elif r < 0.8:
                    m[v] = ["l1", "l2"]
                else:
                    m[v] = self.scalar(null=False)
        # variables that are named like data
        if self.r.random() < 0.12:
            m[self.key()] = self.pick(list(self.lookup_options().values()) + [self.scalar(null=False)])
        if self.r.random() < 0.05:
            m["lookup_options"] = self.lookup_options()
        if self.r.random() < 0.05:
            m[""] = "no name"
        return m

    PCORE = {"string": "String", "int": "Integer", "bool": "Boolean", "float": "Float", "any": "Any", "sensitive": "Sensitive", "sensitive[string]": "Sensitive"}

    def typename(self, t):
        return self.PCORE[t] if self.dialect == "pcore" else t

    ODDMERGE = [{}, {"strategy": 1}, {"strategy": "deep", "x": 1}, {"x": "deep"}, 5, ["deep"], True, {"strategy": ["deep"]}, {"strategy": ""}]

    def lookup_options(self):
        lo = {}
        for _ in range(self.r.randrange(1, 4)):
            o = {}
            r = self.r.random()
            if r < 0.75:
                s = self.pick(["first", "unique", "hash", "deep", "deep", "unique"])
                if self.p("errs") and self.r.random() < 0.15:
                    s = self.pick(["nosuch", "Deep", ""])
                o["merge"] = s if self.r.random() < 0.6 else {"strategy": s}
                if self.p("errs") and self.r.random() < 0.15:
                    o["merge"] = self.pick(self.ODDMERGE)
            if self.p("conv"):
                c = self.typename(self.pick(["string", "int", "bool", "sensitive", "sensitive", "any", "float", "sensitive[string]"]))
                o["convert_to"] = c if self.r.random() < 0.7 else [c]
                if c in ("int", "Integer") and self.r.random() < 0.3:
                    o["convert_to"] = [c, self.pick([2, 8, 10, 16])]
                elif self.p("errs") and self.r.random() < 0.1:
                    o["convert_to"] = [self.typename("string"), self.pick(["bad", 1, True, []])]
                elif self.p("errs") and self.r.random() < 0.1:
                    o["convert_to"] = self.pick([[c, "x", "y"], "nosuch[", [], 3])
            lo[self.key()] = o
        return lo

    def datafile(self):
        d = {}
        for i in range(self.f["keys"]):
            if self.r.random() < 0.55:
                k = self.KEYS[i]
                d[k] = self.ivalue() if self.p("interp") else self.value()
        if self.p("lo") and self.r.random() < 0.6:
            d["lookup_options"] = self.lookup_options()
        return d

    def single(self):
        """a data file in which the value of a key may look like lookup options"""
        d = self.datafile()
        if self.r.random() < 0.5:
            d[self.key()] = self.pick(list(self.lookup_options().values()))
        return d

    def loc(self, sc, n, hit=0.85):
        """a path template and the files it may select"""
        r = self.r.random()
        name = "f%d%s.yaml" % (n, self.pick(["a", "b", "c", "d"])) if self.r.random() < 0.7 else self.pick(["a/", "b/", "l1/"]) + "same.yaml"
        if r < 0.6:
            tmpl = name
            targets = [name]
        elif r < 0.8:
            tmpl = "%{v1}/" + name
            targets = ["l1/" + name, "l2/" + name]
        elif r < 0.9:
            tmpl = "%{nested.a}-" + name
            targets = ["l1-" + name, "l2-" + name, "-" + name]
        else:
            tmpl = "x%{v2}" + name
            targets = ["xl1" + name, "x" + name]
        for t in targets:
            if self.r.random() < hit:
                self.put(sc, t)
        return tmpl

    def put(self, sc, rel, dd="data"):
        p = (dd + "/" if dd else "") + rel
        if p in sc.paths:
            return
        sc.paths.add(p)
        if self.p("errs") and self.r.random() < 0.06:
            sc.file(p, self.pick([bad("["), bad("- a"), bad("just text"), bad("{a: 1"), bad("a: b: c")]) if not rel.endswith(".json")
                    else bad("{"))
        else:
            d = self.datafile()
            sc.file(p, d)
            sc.datafiles.append(p)

    def entry(self, sc, n):
        e = {"name": "level %d" % n}
        r = self.r.random()
        if self.r.random() < self.f["fns"]:
            kind = self.pick(["lookup_key", "lookup_key", "data_dig", "data_hash"])
            if self.r.random() < 0.1:
                e["lookup_key"] = self.pick(["environment", "scope"])
                return e
            fn = "fn%d" % n
            beh = self.pick(["table", "table", "table", "opt", "opts", "lookup", "interp", "explain"] + (["err"] if self.p("errs") else []))
            if kind == "data_hash":
                beh = self.pick(["table", "table", "interp", "opts"])
                if beh == "opts" and self.r.random() < 0.5:
                    beh = "table"
            tab = {}
            for k in self.KEYS[:self.f["keys"]]:
                if self.r.random() < 0.5:
                    tab[k] = self.ivalue() if beh == "interp" else self.value()
            if self.p("lo") and self.r.random() < 0.4 and beh == "table":
                tab["lookup_options"] = self.lookup_options()
            arg = {"opt": self.pick(["o1", "o2"]), "lookup": self.ref(), "explain": "looks around"}.get(beh, "")
            sc.fn(fn, kind, beh, arg, tab)
            e[kind] = fn
            if self.r.random() < 0.6 or beh in ("opt", "opts"):
                e["options"] = {"o1": self.pick(["const", "%{v1}", "x %{v2}", ["%{v1}", 1], {"k": "%{nested.a}"}]),
                                "o-2": self.pick([1, True, [], "z"])}
            if self.r.random() < 0.3:
                e[self.pick(["path", "uri"])] = self.pick(["p%{v1}.x", "plain", "http://h/%{v1}"])
            elif self.r.random() < 0.2:
                e["uris"] = ["http://h/a", "http://h/%{v2}"]
            return e
        if r < 0.35:
            e["path"] = self.loc(sc, n)
        elif r < 0.7:
            e["paths"] = [self.loc(sc, n, 0.75) for _ in range(self.r.randrange(1, 4))]
        elif r < 0.78:
            e["glob"] = self.pick(["g%d*.yaml" % n, "g%d/*.yaml" % n, "**/g%dx.yaml" % n, "g%d?.yaml" % n])
            for t in ["g%da.yaml" % n, "g%db.yaml" % n, "g%d/c.yaml" % n, "g%d/d.yaml" % n, "s/g%dx.yaml" % n, "g%dx.yaml" % n]:
                if self.r.random() < 0.5:
                    self.put(sc, t)
        elif r < 0.84:
            e["globs"] = ["%%{v1}/g%d*.yaml" % n, "h%d*.yaml" % n]
            for t in ["l1/g%da.yaml" % n, "l2/g%db.yaml" % n, "h%d.yaml" % n, "h%db.yaml" % n]:
                if self.r.random() < 0.5:
                    self.put(sc, t)
        elif r < 0.92:
            e["mapped_paths"] = [self.pick(["v3", "nested.b", "v1", "nosuchvar"]), self.pick(["t", "v1"]),
                                 self.pick(["m%{t}.yaml", "m%{v1}%{t}.yaml", "m/%{t}.yaml"])]
            for t in ["ml1.yaml", "ml2.yaml", "mx.yaml", "my.yaml", "m/x.yaml", "ml1l1.yaml", "ml1l2.yaml", "m.yaml"]:
                if self.r.random() < 0.5:
                    self.put(sc, t)
        else:
            e["data_hash"] = "json_data"
            if self.r.random() < 0.6:
                e["path"] = "j%d.json" % n
                self.put(sc, e["path"])
            else:
                e["paths"] = [d + "j%d.json" % n for d in ("", "a/", "%{v1}/")][:self.r.randrange(2, 4)]
                for d in ("", "a/", "l1/"):
                    if self.r.random() < 0.7:
                        self.put(sc, d + "j%d.json" % n)
        return e

    def world(self, sid, cmp=""):
        sc = Sc(sid, cmp)
        sc.paths = set()
        sc.datafiles = []
        n = self.r.randint(*self.f["levels"])
        cfg = {"version": 5}
        if self.r.random() < 0.2:
            cfg["defaults"] = self.pick([{"datadir": "data"}, {"data_hash": "yaml_data"}, {"datadir": "data", "data_hash": "yaml_data"}])
            if "datadir" not in cfg["defaults"]:
                cfg["defaults"]["datadir"] = "data"
            if "data_hash" not in cfg["defaults"]:
                cfg["defaults"]["data_hash"] = "yaml_data"
        cfg["hierarchy"] = [self.entry(sc, i) for i in range(n)]
        sc.cfg = cfg
        sc.file("hiera.yaml", cfg)
        return sc

    def moduleconfig(self, sc, d):
        """a config of a module: a simple one, one with an entry of its own or an invalid one"""
        x = self.r.random()
        if x < 0.5:
            return {"version": 5, "hierarchy": [{"name": "m", "path": "common.yaml"}]}
        if x < 0.9:
            e = [{"name": "m", self.pick(["path", "glob"]): "common.yaml"},
                 {"name": "n", "paths": ["%{v1}.yaml", "extra.yaml", "%{nested.a}.yaml"]}]
            sc.file(d + "/%s/extra.yaml" % "moddata", self.moduledata("mymod"))
            return {"version": 5, "defaults": {"datadir": self.pick(["data", "data", "moddata"])}, "hierarchy": e[::self.pick([1, -1])]}
        return self.pick([{"version": 4}, {"version": 5, "hierarchy": {}}, {"version": 5, "bogus": 1}, "text", {"version": 5}])

    def moduledata(self, nm):
        data = {}
        for k in ("mymod", "a", "other", "Other"):
            for x in ("b", "c"):
                if self.r.random() < 0.5:
                    data[k + "::" + x] = self.ivalue() if self.p("interp") else self.value()
        data["ka"] = self.value()
        if self.r.random() < 0.6:
            los = {}
            for k in (nm.lower() + "::b", nm.lower() + "::c", "mymod::b", "a::b", "ka", nm):
                if self.r.random() < 0.4:
                    los[k] = self.pick([{"merge": "deep"}, {"merge": "unique"}, {"merge": "hash"}, {"merge": "first"}, {"convert_to": "sensitive"}, {"convert_to": "string"},
                                        {"merge": "deep", "convert_to": "sensitive"}, {}, {"merge": "bogus"}])
            data["lookup_options"] = los
        return data

    def modules(self, sc, names=("mymod", "a", "Other")):
        dirs = self.pick([["modules"], ["modules", "site"], ["site", "nowhere", "modules"]])
        for md in dirs:
            if md == "nowhere":
                continue
            for nm in names:
                if self.r.random() < 0.75:
                    if self.r.random() < 0.2:
                        nm = nm.upper()
                    d = md + "/" + nm
                    if self.r.random() < 0.1:
                        t = nm.swapcase()
                        sc.file(md + "/" + t + self.pick(["", "", "/data/common.yaml"]), self.moduledata(nm))
                    if self.r.random() < 0.85:
                        sc.file(d + "/hiera.yaml", self.moduleconfig(sc, d))
                    sc.file(d + "/data/common.yaml", self.moduledata(nm))
        if self.r.random() < 0.6:  # the global hierarchy has values for keys of modules, too
            for i, f in enumerate(sc.d["files"]):
                if f[0].startswith("/R/data/") and "v" in f[1] and "m" in f[1]["v"] and self.r.random() < 0.6:
                    m = dict(self.moduledata("mymod"))
                    m.pop("lookup_options", None)
                    f[1]["v"]["m"] = [e for e in f[1]["v"]["m"] if e[0].get("s") not in m] + V(m)["m"]
        return ["/R/" + d for d in dirs]

    def start(self, sc, **kw):
        """a session and a number of invocations of it"""
        ss = self.scope() if self.p("scope") else None
        a = {}
        if ss is not None:
            a["scope"] = V(ss)
        if self.r.random() < self.f["mods"]:
            a["modpath"] = self.modules(sc)
            a["top"] = "mux"
            a["provs"] = self.pick([["config", "module"], ["config", "environment", "module"], ["module", "config"]])
        elif self.p("mux"):
            a["top"] = "mux"
            a["provs"] = self.pick([["config"], ["config", "environment"], ["scope", "config"], ["config", "scope"],
                                    ["environment", "config", "scope"]])
            if self.r.random() < 0.15:
                sc.file("single.yaml", self.single())
                a["provs"] = self.pick([["yaml", "config"], ["config", "yaml"], ["yaml"], ["scope", "yaml", "config"]])
                a["ypath"] = "/R/single.yaml"
        elif self.r.random() < 0.03:
            sc.file("single.yaml", self.single())
            a.update(top="yaml", ypath="/R/single.yaml")
        a.update(kw)
        sc.session(**a)
        sc.mux = a.get("top") == "mux"
        return sc

    def inv(self, sc, i="i", x=None):
        a = {}
        if self.r.random() < 0.4:
            a["scope"] = self.scope()
        if x is None:
            x = self.pick(["d", "do", "o"]) if self.p("explain") else ""
        if x:
            a["x"] = x
        sc.inv(i=i, **a)

    def opts(self):
        if not self.p("requested"):
            return {}
        s = self.pick(["first", "unique", "hash", "deep"])
        if self.p("errs") and self.r.random() < 0.1:
            s = "bogus"
        if self.p("errs") and self.r.random() < 0.08:
            return {"opts": {"merge": self.pick(self.ODDMERGE)}}
        return {"opts": {"merge": s if self.r.random() < 0.6 else {"strategy": s}}}

    def lkey(self, sc):
        r = self.r.random()
        if r < 0.06:
            return self.pick(["nosuch", "nosuch.a", "lookup_options", "lookup_options.ka", "lookup_options.ka.merge", "'ka'", '"ka"', "v1",
                              "env::HIERA_X"])
        if r < 0.1 and self.p("errs"):
            return self.pick(["", ".a", "ka.", "ka..b", "'ka", "1", "1.a", "ka.'x"])
        if sc.mux and self.r.random() < 0.3:
            return self.pick(["mymod::b", "a::b", "Other::b", "other::c", "MyMod::c", "mymod::c.a", "nomod::x", "::b", "a::c"])
        return self.ref()

    def lookups(self, sc, invs=("i",), n=None):
        for _ in range(n or self.r.randint(*self.f["ops"])):
            sc.lookup(self.lkey(sc), i=self.pick(invs), **self.opts())
        return sc

    def scenario(self, sid, cmp="", **kw):
        sc = self.world(sid, cmp)
        self.start(sc, **kw)
        self.inv(sc)
        return self.lookups(sc)

    # ---- direct operations ----------------------------------------------
    def mergeable(self):
        return self.value(self.pick([0, 1, 2, 3]))

    def anykey(self):
        """any string, mostly looking like a key"""
        n = self.r.randrange(1, 7)
        return "".join(self.pick(["a", "b", "ka", ".", ".", ".", "'", '"', "0", "1", "12", "-1", "x y", "-", "::", "a::b", "é", "'a.b'", '"c"',
                                  " ", "007", "1a", "'1'", "2147483647"]) for _ in range(n))

    def path(self, v):
        """segments that lead into the value, sometimes astray"""
        s = ""
        while True:
            if isinstance(v, list) and v:
                i = self.r.randrange(len(v) + (self.r.random() < 0.2))
                if self.r.random() < 0.1:
                    i = -1
                s += "." + str(i)
                if not 0 <= i < len(v):
                    return s
                v = v[i]
            elif isinstance(v, dict) and v:
                k = self.pick(sorted(v))
                if k in ("0", "1") and self.r.random() < 0.3:
                    s += "." + k      # an index, not the key
                    return s
                q = self.pick(["'", '"']) if (not k.isalnum() or k.isdigit() or self.r.random() < 0.2) else ""
                s += "." + q + k + q
                v = v[k]
            else:
                if not s or self.r.random() < 0.3:
                    s += "." + self.pick(["a", "0", "'0'"])
                return s
            if self.r.random() < 0.25:
                return s

    def settings(self, sc):
        """moves what the entries of the config say to other places that they may be said"""
        cfg = sc.cfg
        dd = self.pick([None, None, "data", "dd", "./x/../data", "%{v1}dir", "/R/absdata", ".."])
        if self.r.random() < 0.5:
            d = {}
            if self.r.random() < 0.7:
                d["data_hash"] = "yaml_data"
            elif self.r.random() < 0.3:
                sc.fn("dfn", "lookup_key", "opts")
                d["lookup_key"] = "dfn"
            if self.r.random() < 0.6:
                d["datadir"] = self.pick(["data", "dd", "%{v1}dir", "/R/data"])
            if self.r.random() < 0.4:
                d["options"] = {"od": self.pick(["%{v1}", 1, {"x": ["%{v2}"]}])}
            cfg["defaults"] = d
        else:
            cfg.pop("defaults", None)
        if self.r.random() < 0.3:
            sc.env(HIERA_DATADIR=self.pick(["dd", "data", "nodir", ""]))
        for e in cfg["hierarchy"]:
            if dd and self.r.random() < 0.4:
                e["datadir"] = dd
            if self.r.random() < 0.15 and not any(k in e for k in ("path", "paths", "glob", "globs", "mapped_paths")):
                e.pop("uri", None)
                e.pop("uris", None)
                e["glob"] = self.pick(["f*.yaml", "*", "**/f1*.yaml"])
        # the same files in other directories
        fs = [f for f in sc.d["files"] if f[0].startswith("/R/data/")]
        for f in fs:
            rel = f[0][len("/R/data/"):]
            for d in ("dd/", "l1dir/", "l2dir/", "absdata/", "", "dir/"):
                if self.r.random() < 0.25 and not any(x[0] == "/R/" + d + rel for x in sc.d["files"]):
                    sc.file(d + rel, self.datafile())
        if self.r.random() < 0.1:
            # no hierarchy, or none to speak of
            if self.r.random() < 0.5:
                del cfg["hierarchy"]
            else:
                cfg["hierarchy"] = []
            self.defaultfiles(sc)
        for f in sc.d["files"]:
            if f[0] == "/R/hiera.yaml":
                f[1] = doc(cfg)
        r = self.r.random()
        for op in sc.d["ops"]:
            if op["op"] == "session":
                if r < 0.1:
                    for f in sc.d["files"]:
                        if f[0] == "/R/hiera.yaml":
                            f[0] = "/R/other.yaml"
                    if r < 0.04:
                        op["cfgname"] = "other.yaml"
                    elif r < 0.08:
                        del op["root"]
                        op["cfg"] = "/R/other.yaml"
                    else:
                        sc.env(HIERA_CONFIGFILE="other.yaml")
                elif r < 0.16:
                    # no config file: the default hierarchy
                    sc.d["files"] = [f for f in sc.d["files"] if f[0] != "/R/hiera.yaml"]
                    self.defaultfiles(sc)

    def defaultfiles(self, sc):
        for n in ("data.yaml", "data/common.yaml", "dd/common.yaml"):
            if not any(x[0] == "/R/" + n for x in sc.d["files"]):
                sc.file(n, self.datafile())

    # ---- invalid configurations (P07) -----------------------------------
    def anyvalue(self):
        return self.pick([1, True, 2.5, "", "x", [], ["x"], [1], [""], {}, {"a": 1}, {"path": "x"}, ["a", "b", "c"], {"a": {"b": [1]}}, "%{v1}",
                          "%{lookup('ka')}", "yaml_data", "%{scope('v1')}", ["v1", "x", "%{x}.yaml"], 5, "5"])

    def spoil(self, sc):
        """one change of the config that may make it invalid"""
        cfg = sc.cfg
        hier = cfg["hierarchy"]
        e = self.pick(hier) if hier else None
        fields = ["path", "paths", "glob", "globs", "uri", "uris", "mapped_paths", "data_hash", "lookup_key", "data_dig", "datadir", "plugindir",
                  "pluginfile", "options", "name", "Path", "nosuch"]
        r = self.r.random()
        if r < 0.35 and e:
            e[self.pick(fields)] = self.anyvalue()
        elif r < 0.42 and e:
            e.pop(self.pick(sorted(e)), None)
        elif r < 0.5 and e:
            e["options"] = {self.pick(["path", "uri", "o", "o-", "_o", "a:b", "1x", "a b", "A", "paths", "x-1", ""]): self.anyvalue()}
        elif r < 0.58:
            cfg.setdefault("defaults", {})
            cfg["defaults"][self.pick(fields)] = self.anyvalue()
        elif r < 0.64:
            cfg[self.pick(["version", "hierarchy", "defaults", "default_hierarchy", "extra", "Version"])] = self.anyvalue()
        elif r < 0.7:
            cfg.pop(self.pick(["version", "hierarchy", "defaults"]), None)
        elif r < 0.8:
            x = dict(e or {"name": "x"})
            if self.r.random() < 0.5:
                x["name"] = self.pick([x.get("name", "n"), str(x.get("name")).upper(), "other"])
            hier.insert(self.r.randrange(len(hier) + 1), x)
        elif r < 0.88:
            dh = [dict(x) for x in hier] if self.r.random() < 0.6 else []
            if dh and self.r.random() < 0.5:
                self.pick(dh)[self.pick(fields)] = self.anyvalue()
            cfg["default_hierarchy"] = dh
        else:
            t = self.pick(["[", "- version: 5", "version", "version: 5\nhierarchy: {", "5", "\tversion: 5", "version: 5\nversion: 5\nx: [", "{}",
                           "hierarchy: []", "version: 4\nhierarchy: []", "version: '5'"])
            for f in sc.d["files"]:
                if f[0] == "/R/hiera.yaml":
                    f[1] = bad(t) if t not in ("{}", "hierarchy: []", "version: 4\nhierarchy: []", "version: '5'", "5", "version", "- version: 5") else doc(
                        {"{}": {}, "hierarchy: []": {"hierarchy": []}, "version: 4\nhierarchy: []": {"version": 4, "hierarchy": []},
                         "version: '5'": {"version": "5"}, "5": 5, "version": "version", "- version: 5": [{"version": 5}]}[t])
            return sc
        for f in sc.d["files"]:
            if f[0] == "/R/hiera.yaml":
                f[1] = doc(cfg)
        return sc

    # ---- references (P08) -----------------------------------------------
    def references(self, sid):
        """long chains, diamonds, cycles, over keys of several levels; all errors are recursions"""
        sc = Sc(sid)
        kind = self.pick(["chain", "chain", "cycle", "cycle", "diamond", "mixed", "vars", "config"])
        n = self.pick([3, 8, 20, 40, 70])
        datas = [{}, {}]
        scope = {}

        def ref(k, whole=False):
            m = self.pick(["lookup", "hiera", "alias", "strict_alias"] if whole else ["lookup", "hiera"])
            return "%{" + m + "('" + k + "')}"

        def put(k, v):
            self.pick(datas)[k] = v

        names = ["n%d" % i for i in range(n)]
        if kind in ("chain", "cycle"):
            for i in range(n - 1):
                x = self.r.random()
                t = names[i + 1]
                if x < 0.5:
                    put(names[i], ref(t, True))
                elif x < 0.7:
                    put(names[i], "." + ref(t))
                elif x < 0.8:
                    put(names[i], [ref(t, True)])
                    names[i + 0] = names[i]
                    if self.r.random() < 0.5:
                        put(names[i], {"d": ref(t, True)})
                else:
                    scope["s%d" % i] = ref(t, True) if self.r.random() < 0.5 else "s" + ref(t)
                    put(names[i], "%{s" + str(i) + "}")
            back = self.pick(names)
            put(names[-1], "end" if kind == "chain" else ref(back, self.r.random() < 0.5))
            keys = [names[0], names[-1], self.pick(names), back]
        elif kind == "diamond":
            n = self.pick([3, 6, 8])
            for i in range(n):
                put("n%d" % i, ref("n%d" % (i + 1)) + ref("n%d" % (i + 1)))
            put("n%d" % n, "x")
            keys = ["n0", "n1", "n%d" % n]
        elif kind == "vars":
            n = self.pick([2, 3, 10])
            for i in range(n):
                scope["v%d" % i] = "%{v" + str(i + 1) + "}" + self.pick(["", "x", "%{w}"])
            end = self.pick(["end", "%{v0}", "%{v" + str(n) + "}", "%{lookup('k')}", "%{scope('v0')}", "%{v1.a}"])
            scope["v%d" % n] = end
            scope["w"] = "w"
            put("k", "%{v0}")
            put("l", "%{v" + str(n) + ".a}")
            put("m", "fine %{w}")
            keys = ["k", "l", "m", "k"]
        elif kind == "config":
            scope.update({"v": self.pick(["x", "%{v}", "%{w}", "%{w.a}"]), "w": self.pick(["y", "%{v}", {"a": "%{v}"}])})
            keys = ["k", "m"]
            put("k", "here")
            put("m", "%{v}")
        else:
            names = ["n%d" % i for i in range(12)]
            for k in names:
                ts = [self.pick(names + ["leaf", "leaf"]) for _ in range(self.pick([0, 1, 1, 2]))]
                put(k, ref(ts[0], True) if len(ts) == 1 and self.r.random() < 0.6 else "".join(self.pick(["", "-"]) + ref(t) for t in ts))
            put("leaf", "leaf")
            keys = names[:]
        datas[0]["lookup_options"] = {k: {"merge": "unique"} for k in keys if self.r.random() < 0.15}
        hier = [{"name": "a", "path": "a%{v}.yaml" if kind == "config" else "a.yaml"}, {"name": "b", "path": "b.yaml"}]
        for f in ("a.yaml", "ax.yaml", "ay.yaml"):
            sc.file("data/" + f, datas[0])
        sc.file("data/b.yaml", datas[1])
        sc.file("hiera.yaml", {"version": 5, "hierarchy": hier})
        sc.session(scope=V(scope))
        sc.inv()
        sc.inv(i="j")
        ops = [k for k in keys] + [keys[0] + ".0", keys[0] + ".d"]
        self.r.shuffle(ops)
        for k in ops:
            sc.lookup(k, i=self.pick(["i", "i", "j"]))
        return sc

    # ---- histories (P10) ------------------------------------------------
    def history(self, sid):
        sc = self.world(sid)
        self.start(sc)
        for i in "ij":
            self.inv(sc, i)
        if self.r.random() < 0.5:
            sc.session(s="t", scope=V(self.scope()))
            sc.inv(i="k", s="t")
        else:
            self.inv(sc, "k")
        paths = [f[0] for f in sc.d["files"]]
        there = {f[0] for f in sc.d["files"]}
        t = len([o for o in sc.d["ops"] if o["op"] == "session"]) > 1
        hot = [self.lkey(sc) for _ in range(3)]
        for _ in range(self.r.randrange(12, 24)):
            r = self.r.random()
            if r < 0.6:
                k = self.pick(hot) if self.r.random() < 0.6 else self.lkey(sc)
                # at times with another scope in effect
                sc.lookup(k, i=self.pick("iijk"), **dict(self.opts(), **({"bind": V(self.scope())} if self.r.random() < 0.25 else {})))
            elif r < 0.72:
                p = self.pick(paths)
                c = self.datafile()
                if p == "/R/hiera.yaml":
                    c = dict(sc.cfg)
                    c["hierarchy"] = list(c["hierarchy"])
                    x = self.r.random()
                    if x < 0.4:
                        c["hierarchy"] = c["hierarchy"][::-1]
                    elif x < 0.6:
                        c["hierarchy"] = c["hierarchy"][:1]
                    elif x < 0.8:
                        c["hierarchy"] = c["hierarchy"] + [{"name": "new", "path": "new.yaml"}]
                    else:
                        c["hierarchy"] = c["hierarchy"] + [{"name": "bad"}, {"name": "bad"}]
                there.add(p)
                sc.op("write", p=p, c=doc(c) if self.r.random() < 0.9 else bad("["))
            elif r < 0.78:
                ps = sorted(there)
                if ps:
                    p = self.pick(ps)
                    there.discard(p)
                    sc.op("remove", p=p)
            elif r < 0.84:
                p = "/R/data/" + self.pick(["new.yaml", "f0a.yaml", "f1b.yaml", "g0a.yaml", "l1/f0a.yaml"])
                if p not in there:
                    there.add(p)
                    sc.op("write", p=p, c=doc(self.datafile()))
            elif r < 0.95:
                self.inv(sc, self.pick("ij"))
            elif t:
                sc.inv(i="k", s=self.pick(["s", "t"]))
        return sc

    # ---- several invocations at once (P09) --------------------------------
    def parallel(self, sid):
        """invocations of one session, each of which is used by a thread of its own, in worlds that don't change"""
        sc = self.world(sid, "l")
        self.start(sc)
        invs = ["i%d" % n for n in range(self.pick([2, 3, 4, 6]))]
        ks = [self.lkey(sc) for _ in range(4)]
        shared = {"scope": self.scope()} if self.r.random() < 0.3 else None
        for i in invs:
            if shared:
                sc.inv(i=i, **dict(shared, **self.pick([{}, {"x": "do"}])))
            else:
                self.inv(sc, i)
        ops = sc.d["ops"]
        for _ in range(self.pick([1, 1, 2])):
            ths = []
            for i in invs:
                sc.d["ops"] = []
                for _ in range(self.r.randrange(2, 6)):
                    if self.r.random() < 0.85:
                        sc.lookup(self.pick(ks) if self.r.random() < 0.7 else self.lkey(sc), i=i, **self.opts())
                    else:
                        sc.op("interp", i=i, v=V(self.ivalue()))
                ths.append(sc.d["ops"])
            ops.append({"op": "par", "ths": ths})
        sc.d["ops"] = ops
        return sc

    # ---- plugins (P12, P13) ------------------------------------------------
    ODD = ["a b", "k&x=1", "\u00fc\u20ac", "a/b", "100%", "%2F", "k+1", "q\"q", "x?y#z", "new\nline", "<&>", "\U0001F600", "a;b", "options", "key",
           "\\back", "  ", "%20", "null", "true", "[1]", "{}"]

    def oddvalue(self, depth=3):
        r = self.r.random()
        if r < 0.25:
            return self.pick(self.ODD)
        if r < 0.45:
            return Raw(self.pick([{"g": "9007199254740993"}, {"g": "-9223372036854775808"}, {"i": -1}, {"f": "1.0"}, {"f": "-3.0"}, {"f": "0.1"}, {"f": "-2.5E+100"},
                                  {"i": 0}, {"b": False}, {"s": ""}, {"n": "null"}, {"g": "4294967296"}, {"f": "1E-07"}]))
        if r < 0.55:
            return self.value(2)
        if depth == 0:
            return "deep"
        if r < 0.7:
            x = self.oddvalue(depth - 1)
            return [x, self.oddvalue(depth - 1), x]
        return {k: self.oddvalue(depth - 1) for k in self.r.sample(self.ODD, self.r.randrange(0, 4))}

    def plugfn(self, sc, bad):
        kind = self.pick(["lookup_key", "lookup_key", "data_hash", "data_dig"])
        beh = self.pick(["table", "table", "table", "opt", "opts", "null"]) if kind != "data_hash" else self.pick(["table", "table", "table", "opts", "null"])
        if bad and self.r.random() < 0.35:
            beh = self.pick(["err", "errall", "status", "garbage", "empty", "drop", "truncated"] + (["die"] if self.r.random() < 0.4 else []))
        tab = {}
        for k in self.KEYS[:self.f["keys"]] + self.ODD:
            if self.r.random() < 0.4:
                tab[k] = self.oddvalue() if self.r.random() < 0.7 else self.ivalue()
        if self.p("lo") and beh == "table" and self.r.random() < 0.3:
            tab["lookup_options"] = self.lookup_options()
        arg = {"opt": self.pick(["o1", "o-2"]), "status": self.pick(["500", "400", "204", "503", "201", "403"]),
               "garbage": self.pick(["{", "nonsense", "{\"a\": ", "[1 2]"])}.get(beh, "")
        return {"kind": kind, "beh": beh, "arg": arg, "tab": V(tab)}

    def exe(self, sc, names, bad):
        x = {"fns": {n: self.plugfn(sc, bad) for n in names}, "start": ["ok"], "stop": "ok"}
        if bad:
            if self.r.random() < 0.4:
                x["start"] = [self.pick(["exit", "garbage", "partial", "version", "noversion", "noaddress", "nofunctions", "badfunctions", "badnames",
                                         "badname", "closed", "array"]) for _ in range(self.pick([1, 1, 2]))] + ["ok"][:self.pick([0, 1, 1])]
            elif self.r.random() < 0.4:
                x["start"] = [self.pick(["nonet", "noisy", "noisy", "exited"])]
        elif self.r.random() < 0.2:
            x["start"] = [self.pick(["nonet", "noisy"])]
        return x

    def commandworld(self, sid):
        """a world for a command. Now and then its data comes from plugins"""
        if self.r.random() < 0.8:
            return self.world(sid)
        return self.plugworld(sid, self.p("errs") or self.r.random() < 0.5, "", False)

    def plugworld(self, sid, bad=False, cmp="c", inproc=True):
        """functions that are provided by plugins"""
        sc = Sc(sid, cmp)
        sc.paths = set()
        sc.datafiles = []
        sc.mux = False
        fnames = ["f", "g", self.pick(["mod::h", "h 1", "h?x=1", "h%41", "h#i", "h+j", "\u00fch"]), "k-1.x"]
        exes = []
        for p in ("plugin/p1", "plugin/sub/p2", "other/p1") + (("plugin/f",) if self.r.random() < 0.7 else ()):
            if self.r.random() < 0.75:
                exes.append(p)
                if bad and self.r.random() < 0.1:
                    sc.d["files"].append(["/R/" + p, self.pick([{"bad": "#!/bin/sh"}, {"v": V("not executable")}])])
                else:
                    sc.d["files"].append(["/R/" + p, {"x": self.exe(sc, self.r.sample(fnames, self.r.randrange(1, 4)) + (["f"] if p == "plugin/f" else []), bad)}])
        content = {f[0]: f[1] for f in sc.d["files"]}
        for n in fnames:
            if inproc and self.r.random() < 0.12:
                x = self.plugfn(sc, False)
                sc.d["fns"][n] = x
        hier = []
        for n in range(self.r.randrange(1, 5)):
            if self.r.random() < 0.15:
                hier.append({"name": "level %d" % n, "path": self.loc(sc, n)})
                continue
            p = self.pick(exes) if exes and self.r.random() < 0.93 else "plugin/nosuch"
            fns = content.get("/R/" + p, {}).get("x", {}).get("fns", {})
            fn = self.pick(sorted(fns)) if fns and self.r.random() < 0.93 else self.pick(fnames + ["nosuchfn"])
            kind = fns.get(fn, {}).get("kind", "lookup_key") if fn not in sc.d["fns"] else sc.d["fns"][fn]["kind"]
            if fn not in sc.d["fns"] and bad and self.r.random() < 0.06:
                kind = self.pick(["lookup_key", "data_hash", "data_dig"])
            e = {"name": "level %d" % n, kind: fn}
            d, f = p.rsplit("/", 1)
            form = self.r.randrange(4)
            if form == 0:
                e["pluginfile"] = "/R/" + self.pick(["", "./", "plugin/../"]) + p
            elif form == 1 and d.startswith("plugin"):
                e["pluginfile"] = p[len("plugin/"):]
            elif form == 2 or f != fn:
                e["plugindir"] = self.pick([d, "/R/" + d, "./" + d])
                if f != fn:
                    e["pluginfile"] = f
            elif d != "plugin":
                e["plugindir"] = d
            if self.r.random() < 0.7:
                e["options"] = {"o1": self.oddvalue() if self.r.random() < 0.7 else self.pick(["%{v1}", ["%{v1}", 1], {"k": "%{nested.a}"}]),
                                "o-2": self.oddvalue()}
            if self.r.random() < 0.25:
                e[self.pick(["path", "uri"])] = self.pick(["p%{v1}.x", "pl ain&", "http://h/%{v1}?a=b#c"])
            hier.append(e)
        sc.cfg = {"version": 5, "hierarchy": hier}
        if self.r.random() < 0.15:
            sc.cfg["defaults"] = dict({"plugindir": self.pick(["plugin", "plugin/sub", "%{v1}", "/R/other"])} if self.r.random() < 0.6 else {},
                                      **({"lookup_key": self.pick(fnames)} if self.r.random() < 0.5 else {}))
            if not sc.cfg["defaults"]:
                del sc.cfg["defaults"]
        if self.r.random() < 0.15:
            sc.env(HIERA_PLUGINDIR=self.pick(["plugin", "plugin/sub", "other/../other", "/R/plugin", "", "gone"]))
        sc.file("hiera.yaml", sc.cfg)
        return sc

    def plugged(self, sid, bad=False):
        """lookups by functions that are provided by plugins, with keys, options and values of all sorts"""
        sc = self.plugworld(sid, bad)
        ss = [("s", {}), ("t", {})][:self.pick([1, 1, 2])]
        how = {}
        for s, a in ss:
            a["scope"] = V(self.scope())
            if self.r.random() < 0.5:
                a["transport"] = self.pick(["tcp", "unix"])
            if self.r.random() < 0.3:
                how[s] = a["via"] = self.pick(["try", "do"])
            sc.session(s=s, **a)
            sc.inv(i=s + "1", s=s)
            sc.inv(i=s + "2", s=s, **({"scope": self.scope()} if self.r.random() < 0.5 else {}))
        for _ in range(self.r.randrange(5, 12)):
            r = self.r.random()
            s = self.pick(ss)[0]
            if r < 0.85:
                k = self.pick(self.KEYS[:self.f["keys"]])
                if self.r.random() < 0.5:
                    k = self.pick(self.ODD)
                    if not k.strip() or '"' in k or '.' in k or "'" in k:
                        k = "'" + k + "'"
                if self.r.random() < 0.2:
                    k += self.pick([".a", ".0", ".'a b'", ".'100%'"])
                sc.lookup(k, i=s + self.pick("12"), **self.opts())
            elif r < 0.93:
                sc.op("procs")
            elif r < 0.96:
                sc.inv(i=s + "1", s=s)
            elif bad or r < 0.965:
                sc.op("kill", s=s)
            else:
                sc.op("procs")
        sc.op("procs")
        for s, a in ss:
            if s in how:
                sc.op("end", s=s, how=self.pick(["return", "fail", "panic"]))
            else:
                sc.op("kill", s=s)
            sc.op("procs")
        return sc

    def broken(self, sid):
        return self.plugged(sid, True)

    # ---- scopes (P11) ---------------------------------------------------
    def scopes(self, sid):
        sc = self.world(sid)
        self.start(sc)
        ks = [self.ref() for _ in range(3)] + ["v1", "nested"]
        for i in "ijk":
            if self.r.random() < 0.7:
                sc.inv(i=i, scope=self.scope())
            else:
                sc.inv(i=i)
        for _ in range(self.r.randrange(12, 20)):
            r = self.r.random()
            i = self.pick("ijk")
            if r < 0.5:
                sc.lookup(self.pick(ks), i=i, **({"bind": V(self.scope())} if self.r.random() < 0.2 else {}))
            elif r < 0.75:
                sc.op("interp", i=i, v=V(self.ivalue()))
            elif r < 0.88:
                sc.op("interp", i=i, v=V(self.ivalue()), bind=V(self.scope()))
            elif r < 0.95:
                sc.op("mutscope", s="s", m=V(self.scope()))
            else:
                sc.inv(i=i, scope=self.scope())
        return sc

    # ---- the provider cache (P18) ---------------------------------------
    def cachekey(self):
        return self.pick(["ka", "kb", "a::b", "c:ka", "", "k c", "é"])

    def caching(self, sid):
        """operations on the caches of several sessions mixed with lookups that use them"""
        sc = Sc(sid, "c")
        sc.fn("fput", "lookup_key", self.pick(["put", "put", "putfail"]), "value")
        sc.fn("fget", "data_dig", "get")
        sc.fn("ferr", "data_hash", "err")
        for n in "ab":
            es = [{"name": "put", "lookup_key": "fput", "options": {"value": self.value()}}, {"name": "get", "data_dig": "fget"},
                  {"name": "err", "data_hash": "ferr"}, {"name": "data", "path": "c.yaml"}]
            sc.file(n + ".yaml", {"version": 5, "hierarchy": [e for e in es if self.r.random() < 0.6]})
        sc.file("data/c.yaml", {"ka": self.ivalue(), "kb": "%{lookup('ka')}", "lookup_options": {"ka": {"merge": "unique"}}})
        for s in "stu":
            if self.r.random() < 0.8:
                sc.op("session", s=s, cfg="/R/%s.yaml" % self.pick("ab"))
            else:
                sc.session(s=s, top="yaml", ypath="/R/data/c.yaml")
        invs = [(i, s) for s in "stu" for i in (s + "1", s + "2")]
        for i, s in invs:
            sc.inv(i=i, s=s)
        for _ in range(self.r.randrange(20, 40)):
            i = self.pick(invs)[0]
            r = self.r.random()
            if r < 0.3:
                sc.op("cacheput", i=i, k=self.cachekey(), v=V(self.value()) if self.r.random() < 0.9 else {"z": V(self.scalar())})
            elif r < 0.5:
                sc.op("cacheget", i=i, k=self.cachekey() if self.r.random() < 0.9 else "yaml::data")
            elif r < 0.58:
                sc.op("cacheall", i=i, m=V({self.cachekey(): self.value() for _ in range(self.r.randrange(4))}))
            elif r < 0.66:
                sc.op("cacheentries", i=i)
            elif r < 0.7:
                sc.op("cachecopy", i=i, pfx=self.pick(["c:", "d:"]))
            elif r < 0.78:
                sc.op("ctxopts", i=i, k="ka", o1=V(self.some(["ka", "kb"])), o2=V(self.some(["ka", "kb"])))
            else:
                sc.lookup(self.pick(["ka", "kb", "a::b", "ka.x", "kb"]), i=i, **self.opts())
        return sc

    def cachehistory(self, hid, length):
        """what a number of goroutines do with two caches; the values are unique"""
        v = [0]

        def nv():
            v[0] += 1
            return v[0]
        ths = []
        for t in range(self.pick([2, 3, 4])):
            ops = []
            for _ in range(length):
                x = self.r.random()
                s = int(self.r.random() < 0.15)
                if x < 0.7:
                    ops.append({"op": "put", "s": s, "k": self.pick("aaab"), "v": nv()})
                elif x < 0.85:
                    ops.append({"op": "get", "s": s, "k": self.pick("aaab")})
                elif x < 0.95:
                    ops.append({"op": "all", "s": s, "m": {q: nv() for q in "abc" if self.r.random() < 0.7}})
                else:
                    ops.append({"op": "entries", "s": s})
            ths.append(ops)
        return {"id": hid, "threads": ths}

    # ---- explanations (P14) ---------------------------------------------
    def explained(self, sid):
        """lookups with explainers of all kinds and without, by invocations that are otherwise the same"""
        sc = self.world(sid, "l")
        self.start(sc)
        a = {"scope": self.scope()} if self.r.random() < 0.4 else {}
        invs = [("i", ""), (self.pick("jkl"), None)]
        invs = [("i", "")] + [(i, x) for i, x in (("j", "d"), ("k", "do"), ("l", "o")) if self.r.random() < 0.6]
        for i, x in invs:
            sc.inv(i=i, **dict(a, **({"x": x} if x else {})))
        for _ in range(self.r.randrange(2, 5)):
            k = self.lkey(sc) if self.r.random() < 0.9 else self.pick(["lookup_options", "lookup_options.ka", "", "mymod::b"])
            o = self.opts()
            for i, x in invs:
                sc.lookup(k, i=i, **json.loads(json.dumps(o)))
            if self.r.random() < 0.5:
                for i, x in invs[1:]:
                    sc.op("explain", i=i, form=self.pick(["text", "tree"]))
        for i, x in invs[1:]:
            sc.op("explain", i=i, form="text")
            sc.op("explain", i=i, form="tree")
        return sc

    # ---- sensitive values (P15) -----------------------------------------
    MARKER = "S3CR3T"

    def secretvalue(self, depth=2):
        """a value with the marker in it, in the clear or by reference"""
        x = self.r.random()
        if depth == 0 or x < 0.5:
            return self.pick(["S3CR3T", "S3CR3T", "pre S3CR3T post", "%{lookup('raw1')}", "%{alias('raw1')}", "%{hiera('raw2.a')}", "<%{raw}>", "%{nest.a}", "%{literal('S3CR3T')}",
                              "%{strict_alias('raw2')}", "%{lookup('raw1')}%{lookup('raw1')}", "%{alias('sec2')}", "%{lookup('sec2')}", "open %{v1}", "%{lookup('fromfn')}"])
        if x < 0.7:
            return [self.secretvalue(depth - 1) if self.r.random() < 0.6 else self.scalar(null=False) for _ in range(self.r.randrange(1, 4))]
        return {self.pick(["a", "b", "c", "S3CR3T", "%{lookup('raw1')}"]): self.secretvalue(depth - 1) if self.r.random() < 0.6 else self.value(1) for _ in range(self.r.randrange(1, 4))}

    def secrets(self, sid):
        """lookups of keys that are converted to Sensitive, and of keys that refer to such keys, explained in all ways.
        The clear text of the marker belongs to sensitive keys and to keys (raw..) that only sensitive keys refer to"""
        sc = Sc(sid, "l")
        sc.mux = False
        sens = lambda: self.pick(["sensitive", "sensitive", ["sensitive"]])
        strat = lambda: self.pick([None, None, "first", "unique", "hash", "deep", {"strategy": "deep"}])

        def opt():
            o = {"convert_to": sens()}
            m = strat()
            if m is not None:
                o["merge"] = m
            return o
        los = {"sec1": opt(), "sec2": opt(), "sec3": opt()}
        if self.r.random() < 0.3:
            los["u1"] = {"merge": self.pick(["deep", "unique", "hash"])}
        los["bad"] = {"convert_to": self.pick([["sensitive", 1], ["sensitive", "a", "b"]])}
        use = lambda: self.pick(["<%{lookup('sec1')}>", "%{alias('sec1')}", "%{hiera('sec2')} %{lookup('sec3')}", "%{alias('sec2')}", "%{strict_alias('sec3')}", "%{lookup('sec1.a')}",
                                 ["%{alias('sec1')}", "%{lookup('sec1')}"], {"k": "%{alias('sec3')}", "%{lookup('sec1')}": 1}, "%{alias('u1')}", "%{lookup('u2')}", "plain", 3,
                                 "%{lookup('bad')}", {"a": "%{alias('u1')}", "b": ["%{alias('sec1')}"]}, ["%{alias('sec2')}", "x"]])
        levels = []
        n = self.r.randint(1, 3)
        for j in range(n):
            d = {}
            for k in ("sec1", "sec2", "sec3", "bad"):
                if self.r.random() < 0.75 and (k != "sec2" or j < 2):
                    d[k] = self.secretvalue(self.pick([0, 1, 2])) if k != "sec2" else self.pick(["S3CR3T", ["S3CR3T", 1], {"a": "S3CR3T"}, {"b": ["%{lookup('raw1')}"]}])
            for k in ("u1", "u2", "u3"):
                if self.r.random() < 0.7:
                    d[k] = use()
            if j == n - 1 or self.r.random() < 0.3:
                d.update({"raw1": "S3CR3T", "raw2": {"a": "S3CR3T", "b": ["S3CR3T"]}})
            if j == 0:
                d["lookup_options"] = los
            d["plain"] = self.pick(["open", {"a": "%{v1}"}, ["open"]])
            sc.file("data/l%d.yaml" % j, d)
            levels.append({"name": "level %d" % j, "path": "l%d.yaml" % j})
        if self.r.random() < 0.5:
            sc.d["fns"]["fx"] = {"kind": self.pick(["lookup_key", "data_dig"]), "beh": "explainfor", "arg": "tells S3CR3T",
                                 "tab": V({"fromfn": "S3CR3T", "sec1": self.secretvalue(1)})}
            levels.insert(self.r.randrange(len(levels) + 1), {"name": "f", sc.d["fns"]["fx"]["kind"]: "fx"})
        sc.file("hiera.yaml", {"version": 5, "hierarchy": levels})
        a = {"scope": V({"raw": "S3CR3T", "nest": {"a": "S3CR3T"}, "v1": "one"})}
        if self.r.random() < 0.3:
            a.update(top="mux", provs=self.pick([["config"], ["config", "environment"], ["environment", "config"]]))
        sc.session(**a)
        x = self.pick(["", "d", "d", "do", "do", "o"])
        sc.inv(i="i", **({"x": x} if x else {}))
        for _ in range(self.r.randrange(4, 9)):
            k = self.pick(["sec1", "sec1", "sec2", "sec3", "u1", "u2", "u3", "bad", "plain", "sec1.a", "u1.k", "u2.a", "sec2.0"])
            o = self.opts()
            sc.lookup(k, **json.loads(json.dumps(o)))
            if self.r.random() < 0.6:
                sc.op("lookup", i="i", key=k, form="string", **{q: V(w) for q, w in o.items()})
        if x:
            sc.op("explain", i="i", form="text")
            sc.op("explain", i="i", form="tree")
        return sc

    # ---- modules (P19) ---------------------------------------------------
    MODKEYS = ["mymod::b", "a::b", "Other::b", "other::c", "MyMod::c", "mymod::c.a", "nomod::x", "::b", "a::c", "mymod::b.0", "mymod", "ka", "mymod::c", "A::b",
               "mymod::", "a", "other::b"]

    def inmodules(self, sid):
        sc = self.scenario(sid)
        for _ in range(self.r.randrange(6, 12)):
            sc.lookup(self.pick(self.MODKEYS), **self.opts())
        if self.r.random() < 0.5:
            paths = [f[0] for f in sc.d["files"] if "/hiera.yaml" in f[0] or "/data/" in f[0]]
            for j in range(3):
                p = self.pick(paths)
                if p.endswith("hiera.yaml"):
                    sc.op("write", p=p, c={"v": V({"version": 5, "hierarchy": [{"name": "changed", "path": "other.yaml"}]})})
                else:
                    sc.op("write", p=p, c={"v": V(self.moduledata("mymod"))})
                i = self.pick(["i", "j%d" % j])
                if i != "i":
                    self.inv(sc, i, x="")
                for _ in range(3):
                    sc.lookup(self.pick(self.MODKEYS), i=i, **self.opts())
        return sc

    # ---- the lookup API (P16) -------------------------------------------
    def some(self, names):
        return V({n: self.scalar() if self.r.random() < 0.7 else self.value() for n in names if self.r.random() < 0.5})

    def api(self, sid):
        sc = self.scenario(sid, "c")
        types = ["", "", "string", "int", "bool", "float", "any"]
        for _ in range(self.r.randrange(5, 9)):
            names = [self.lkey(sc) for _ in range(self.pick([1, 1, 2, 3, 4]))]
            a = {"names": names}
            every = names + self.KEYS[:3]
            if self.r.random() < 0.4:
                a["over"] = self.some(every)
            if self.r.random() < 0.4:
                a["defs"] = self.some(every)
            o = self.opts()
            if o:
                a["opts"] = V(o["opts"])
            if self.r.random() < 0.7:
                if self.r.random() < 0.4:
                    a["dflt"] = V(self.scalar(null=False))
                if self.r.random() < 0.4:
                    a["df"] = V(self.scalar(null=False))
                t = self.pick(types)
                if t:
                    a["type"] = t
                sc.op("lookup2", i="i", **a)
            else:
                if self.r.random() < 0.4:
                    ns = sorted(set(x for x in names if self.r.random() < 0.85))
                    if ns:
                        a["types"] = V({n: self.pick(types[2:]) for n in ns})
                sc.op("lookupall", i="i", **a)
        return sc

    # ---- the commands (P17, P20) -------------------------------------------
    def literal(self, lits):
        """the text of an argument: a plain string, or a literal whose meaning is noted"""
        def lit(d):
            r = self.r.random()
            if d == 0 or r < 0.55:
                v = self.pick(["x", "a b", "", "l1", "5", "true", "k: v", "%{v1}", 1, 0, 42, True, False, 2.5, "it=1"])
                if isinstance(v, bool):
                    return v, "true" if v else "false"
                if isinstance(v, str):
                    q = self.pick("'\"") if self.dialect == "pcore" else '"'
                    return v, q + v + q
                return v, str(v)
            es = [lit(d - 1) for _ in range(self.r.randrange(1, 4))]
            if r < 0.75:
                o, c = ("[", "]") if self.dialect == "pcore" else ("{", "}")
                return [e[0] for e in es], o + self.pick([", ", ","]).join(e[1] for e in es) + c
            ks = self.r.sample(["a", "b", "c d", "z"], len(es))
            sep = " => " if self.dialect == "pcore" else ": "
            return {k: e[0] for k, e in zip(ks, es)}, "{" + ", ".join('"%s"%s%s' % (k, sep, e[1]) for k, e in zip(ks, es)) + "}"
        r = self.r.random()
        if r < 0.5:
            return self.pick(["l1", "l2", "l3", "web", "5", "-1", "true", "a b", "x=y", "a:b", " pad ", "", "1.5", "\u00fc", "%{v1}", "null", "a, b", "x\ty"])
        if r < 0.56 and self.f["errs"]:
            return self.pick(["[", "{", "'", '"abc', "{a", '["a"', "'x", "{{"])
        while True:
            v, text = lit(2)
            if text[0] in "{[\"'":
                break
        lits.append({"t": text, "v": V(v)})
        return self.pick(["", "", " "]) + text + self.pick(["", "", "  "])

    def variable(self, lits):
        if self.f["errs"] and self.r.random() < 0.04:
            return self.pick(["v1", "", "=", "v1=", "v1==x", "=x", "v1:=x", "a::b", ":x", "v1=\nx\ny", "v1", "v1 ="])
        n = self.pick(self.VARS + ["v1", "v2", "v3"])
        if self.r.random() < 0.1:
            n = self.pick([" " + n, n + " ", n + "\t"])
        v = self.literal(lits)
        # an empty value is not a variable, nor is one that starts with a separator
        if v[:1] in ("", ":", "="):
            v = "l1"
        return n + self.pick("==:") + v

    def varfile(self, sc, n):
        """a file of variables or, at times, something else"""
        p = "/R/vars%d.yaml" % n
        r = self.r.random()
        if self.f["errs"] and r < 0.03:
            return self.pick(["/R/data", "/R/nosuch.yaml"])
        if self.f["errs"] and r < 0.06:
            sc.d["files"].append([p, self.pick([bad("["), bad("a: b: c"), doc([1]), doc("x"), doc(None)])])
        else:
            sc.file("vars%d.yaml" % n, self.scope())
        return p

    def restargs(self, sc):
        a = {}
        lits = []
        if self.r.random() < 0.5:
            a["vars"] = [self.variable(lits) for _ in range(self.r.randrange(1, 4))]
        if self.r.random() < 0.25:
            a["dtext"] = self.literal(lits)
        if self.p("requested"):
            a["merge"] = self.pick(["first", "unique", "hash", "deep", "deep", "unique"] + (["bogus", "Deep"] if self.p("errs") else []))
        if self.r.random() < 0.15:
            a["type"] = self.pick(["string", "int", "bool", "float", "any", "sensitive"] + (["{{{", "["] if self.f["errs"] else []))
        if lits:
            a["lits"] = lits
        return a

    def restserver(self, sc, **kw):
        a = {}
        lits = []
        if self.r.random() < 0.7:
            keep, self.f["errs"] = self.f["errs"], 0
            # plain strings only: the meaning of literals is told by each request
            a["vars"] = ["%s=%s" % (self.pick(self.VARS), self.pick(["l1", "l2", "server", "x y"])) for _ in range(self.r.randrange(1, 7))]
            self.f["errs"] = keep
        if self.r.random() < 0.4:
            a["varfiles"] = [self.varfile(sc, n) for n in range(self.r.randrange(1, 3))]
        sc.op("serve", s="s", cfg="/R/hiera.yaml", **dict(a, **kw))

    def restkey(self, sc):
        if self.r.random() < 0.08:
            return self.pick(["a/b", "a//b", "/x", "../x", "x/..", "k ?&#", "%41", "%", "\u00fc\u20ac", "'a.b'", "new\nline", ".", "..", "+", "a+b", ";", "lookup/ka"])
        return self.lkey(sc)

    def rest(self, sid):
        """requests of a REST server, one at a time, with changes of the data"""
        sc = self.commandworld(sid)
        sc.mux = False
        if self.r.random() < 0.2:
            sc.env(HIERA_X="from the environment")
        if self.r.random() < 0.3:
            fs = [f[1]["v"]["m"] for f in sc.d["files"] if f[0].startswith("/R/data/") and "m" in f[1].get("v", {})]
            if fs:
                self.pick(fs).extend(V({"a/b": "slash", "a//b": 1, "k ?&#": [1.0, None], "\u00fc\u20ac": {"\u00fc": "\U0001F600"}, "%41": "A", "new\nline": "nl"})["m"])
        self.commandenv(sc)
        self.restserver(sc)
        exes = [f[0] for f in sc.d["files"] if "x" in f[1]]
        paths = [f[0] for f in sc.d["files"] if f[0] != "/R/hiera.yaml" and f[0] not in exes] or ["/R/data/x.yaml"]
        hot = [self.lkey(sc) for _ in range(3)]
        for _ in range(self.r.randrange(8, 20)):
            if exes and self.r.random() < 0.1:
                sc.op("procs")
            elif self.r.random() < 0.85:
                sc.op("req", s="s", key=self.pick(hot) if self.r.random() < 0.4 else self.restkey(sc), **dict(self.restargs(sc), **self.pick([{}, {}, {"enc": "min"}, {"junk": ["%zz", "q=1"]}])))
            elif self.r.random() < 0.8:
                p = self.pick(paths)
                sc.op("write", p=p, c=doc(self.scope() if "vars" in p else self.datafile()))
            else:
                sc.op("write", p="/R/hiera.yaml", c=doc({"version": 5, "hierarchy": []}))
        return sc

    def commandenv(self, sc):
        """directories that the environment of a command tells"""
        if self.r.random() < 0.15:
            for f in [f for f in sc.d["files"] if f[0].startswith("/R/data/") and "v" in f[1]]:
                p = f[0].replace("/R/data/", "/R/dd/")
                if self.r.random() < 0.7 and not any(x[0] == p for x in sc.d["files"]):
                    sc.d["files"].append([p, self.pick([f[1], doc(self.datafile())])])
            sc.env(HIERA_DATADIR=self.pick(["dd", "dd", "/R/dd", "./data/", ""]))

    def access(self, sid):
        """requests of clients of all kinds to a server that may be protected"""
        sc = self.commandworld(sid)
        sc.mux = False
        self.commandenv(sc)
        names = ["one", "one", "two", "a", "b", "a-client", "self"]
        items = lambda: [self.pick(["key:", "cert:", "cert:"]) + self.pick(names) if self.r.random() < 0.9 else "comment" for _ in range(self.r.randrange(1, 5))]
        good = self.r.random() < 0.8
        pems = {"key": ["key:one"] if good else items(), "cert": ["cert:one"] if good else items(), "ca": self.pick([["cert:a"], ["cert:a", "cert:b"], ["cert:b"], ["x", "cert:self", "cert:a"], items()])}
        if self.r.random() < 0.3:
            pems["cert"] = pems["cert"] + items()
        for n, x in pems.items():
            sc.d["files"].append(["/R/tls/%s.pem" % n, {"pem": x}])
        t = {n: self.pick(["tls/%s.pem", "/R/tls/%s.pem"]) % n if self.r.random() < 0.85 or (good and n != "ca" and self.r.random() < 0.8) else "" for n in pems}
        t["verify"] = self.r.random() < 0.7
        self.restserver(sc, tls=t)
        # a server that isn't there has no clients
        if t["key"] and t["cert"]:
            first = lambda n, kind: next((x[len(kind):] for x in pems[n] if x.startswith(kind)), None)
            if first("cert", "cert:") is None or first("cert", "cert:") != first("key", "key:") or (t["ca"] and first("ca", "cert:") is None):
                return sc
        hot = [self.lkey(sc) for _ in range(3)]
        for _ in range(self.r.randrange(8, 16)):
            if self.r.random() < 0.1:
                n = self.pick(list(pems))
                sc.op("write", p="/R/tls/%s.pem" % n, c={"pem": items()})
            cl = {"tls": self.r.random() < 0.85, "cert": self.pick(["", "a-client", "a-client", "a-via", "b-client", "b-via", "a-expired", "b-server", "self", "a", "b"]),
                  "expects": self.pick([pems["cert"][0][5:] if pems["cert"][0].startswith("cert:") else "one", "one", "two"])}
            if not cl["tls"]:
                cl.update(cert="", expects="")
            sc.op("req", s="s", key=self.pick(hot) if self.r.random() < 0.4 else self.restkey(sc), client=cl, **self.restargs(sc))
        return sc

    def document(self, d=3):
        """a value that a document has, with keys that may be anything"""
        r = self.r.random()
        if d == 0 or r < 0.3:
            return self.pick([None, True, False, 0, 1, -1, 2147483647, -17, 0.1, 2.5, -1.25, "", "s", "true", "1", "~", "2001-01-01", "a: b", "- x", "# c", "\u00e9\u20ac", "\U0001F600", "<&>",
                              " pad ", "two\nlines\n", "\ttab", "\"q\" 'r' \\", "%{v1}", [], {}, self.scalar(), "x" * self.pick([79, 200, 5000] * 10 + [70000])])
        if r < 0.6:
            return [self.document(d - 1) for _ in range(self.r.randrange(5))]
        return {self.pick(["a", "b", "c", "__type", "__value", "1", "true", "null", "x y", "", "\u00e9", "a.b", "-"] * 8 + [1, True, 1.5]): self.document(d - 1) for _ in range(self.r.randrange(6))}

    def documents(self, sid):
        sc = self.world(sid)
        for _ in range(25):
            sc.op("y2j", stdin=doc(self.document(self.pick([1, 2, 3, 4, 5]))))
        return sc

    def restparallel(self, sid):
        sc = self.world(sid)
        sc.mux = False
        self.restserver(sc)
        ks = [self.lkey(sc) for _ in range(4)]
        def req():
            return dict(self.restargs(sc), op="req", s="s", key=self.pick(ks))
        sc.d["ops"].append({"op": "par", "ths": [[req() for _ in range(self.r.randrange(3, 9))] for _ in range(self.pick([2, 4, 8]))]})
        return sc

    def cli(self, sid):
        """command lines in a world of files"""
        self.dialect = self.pick(["pcore", "pcore", "dgo"])
        sc = self.commandworld(sid)
        sc.mux = False
        exes = [f[0] for f in sc.d["files"] if "x" in f[1]]
        if self.r.random() < 0.2:
            sc.env(HIERA_X="from the environment")
        files = [self.varfile(sc, n) for n in range(3)]
        other = self.r.random() < 0.3
        if other:
            sc.file("sub/other.yaml", sc.cfg)
            if self.r.random() < 0.4:
                sc.env(HIERA_CONFIGFILE=self.pick(["sub/other.yaml", "./sub/../sub/other.yaml", "nosuch.yaml"]))
        self.commandenv(sc)
        for _ in range(self.r.randrange(6, 12)):
            a = {}
            lits = []
            if self.r.random() < 0.6:
                a["vars"] = [self.variable(lits) for _ in range(self.r.randrange(1, 4))]
            std = self.r.random() < 0.15
            def some(p):
                xs = [self.pick(files) for _ in range(self.r.randrange(1, 3))] if self.r.random() < p else []
                if std and self.r.random() < 0.5:
                    xs.insert(self.r.randrange(len(xs) + 1), "-")
                return xs
            for n in ("varfiles", "factfiles"):
                xs = some(0.3)
                if xs:
                    a[n] = xs
            if std:
                a["stdin"] = doc(self.scope()) if self.r.random() < 0.85 else self.pick([bad("["), doc("x")])
            if self.r.random() < 0.3:
                a["dtext"] = self.literal(lits)
            if self.p("requested"):
                a["merge"] = self.pick(["first", "unique", "hash", "deep", "deep", "unique"] + (["bogus"] if self.p("errs") else []))
            names = [self.lkey(sc) for _ in range(self.pick([1, 1, 1, 2, 3]))]
            a["all"] = self.r.random() < 0.2
            if self.r.random() < 0.2:
                if a["all"] and self.r.random() < 0.8:
                    m = {n: self.pick(["string", "int", "any"]) for n in names if self.r.random() < 0.9 and n.isalnum()}
                    if m:
                        sep = "=>" if self.dialect == "pcore" else ":"
                        a["type"] = "{" + ", ".join('"%s"%s%s' % (k, sep, self.typename(m[k])) for k in m) + "}"
                        if self.dialect == "pcore":
                            a["type"] = "Struct[%s]" % a["type"]
                        a["shapes"] = [{"t": a["type"], "m": V(m)}]
                else:
                    a["type"] = self.typename(self.pick(["string", "int", "bool", "float", "any", "sensitive"]))
                if self.f["errs"] and self.r.random() < 0.1:
                    a["type"] = self.pick(["{{{", "["])
            if self.r.random() < 0.25:
                a["explain"] = self.pick(["d", "do", "o"])
            r = self.pick(["", "", "yaml", "json", "json", "s", "s"] + ["binary"] * (self.r.random() < 0.3) + ["Json", "text"] * (self.r.random() < 0.2))
            if r:
                a["render"] = r
            if other and self.r.random() < 0.5:
                a["cfg"] = "/R/sub/other.yaml"
            if lits:
                a["lits"] = lits
            if self.dialect == "dgo":
                a["dialect"] = "dgo"
            if self.r.random() < 0.3:
                a["eq"] = True
            if self.r.random() < 0.3 and not any(n[:1] == "-" for n in names):
                a["first"] = True
            sc.op("cli", names=names, **a)
            if exes and self.r.random() < 0.3:
                sc.op("procs")
        self.dialect = "dgo"
        return sc
