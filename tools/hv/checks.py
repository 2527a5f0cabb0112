"""The checks, one per property."""
import json
import re

from .gen import Gen
from .run import Check, Fault
from .vals import Sc, V

CHECKS = {}


def check(f):
    CHECKS[f.__name__.upper()] = f
    return f


def rnd(c, n, group, cmp="", **kw):
    """random worlds with random lookups, validated against the specification"""
    g = Gen(c.rng, **kw)
    return c.conform([g.scenario("%s-%d" % (group, i), cmp) for i in range(n)], group)


@check
def p01(c):
    c.replay(c.model("MC_First", constants={"MaxSlots": 3 if c.quick else 4}), "exhaustive")
    rnd(c, c.n(500, 6000), "random", "c", interp=0.05, lo=0.15, requested=0.05, errs=0.05, dig=0.1, explain=0, levels=(1, 5))
    return c.finish()


@check
def p02(c):
    c.replay(c.model("MC_Merge", constants={"PoolSize": 8 if c.quick else 9}), "exhaustive")
    # the strategies applied directly
    g = Gen(c.rng, nulls=False, words=0.2, depth=3)
    scs = []
    for i in range(c.n(150, 1500)):
        s = Sc("direct-%d" % i, "")
        for _ in range(8):
            s.op("merge", strat=g.pick(["first", "unique", "unique", "hash", "deep", "deep", "bogus"][:7 if g.r.random() < 0.1 else 6]),
                 vs=[V(g.mergeable()) for _ in range(g.pick([1, 2, 2, 3, 4]))])
        scs.append(s)
    c.conform(scs, "direct")
    rnd(c, c.n(350, 5000), "random", "", nulls=False, interp=0.1, lo=0.7, requested=0.7, errs=0.05, dig=0.2, explain=0, levels=(2, 5), conv=0)
    return c.finish()


@check
def p03(c):
    c.replay(c.model("MC_Options", constants={"Levels": 2 if c.quick else 3}), "exhaustive")
    rnd(c, c.n(500, 6000), "random", "", interp=0.1, lo=1, requested=0.5, errs=0.3, explain=0, levels=(1, 4), conv=0.3)
    return c.finish()


@check
def p04(c):
    c.replay(c.model("MC_Keys", constants={"MaxLen": 4 if c.quick else 5}), "exhaustive")
    g = Gen(c.rng, nulls=False)
    scs = []
    for i in range(c.n(150, 2000)):
        s = Sc("syntax-%d" % i, "")
        v = g.value(4)
        for _ in range(10):
            s.op("parsekey", key=g.anykey())
            s.op("dig", key=g.anykey(), v=V(v))
            s.op("dig", key="k" + g.path(v), v=V(v))
        scs.append(s)
    c.conform(scs, "syntax")
    rnd(c, c.n(350, 5000), "random", "", interp=0.15, lo=0.5, requested=0.4, errs=0.3, dig=1, explain=0, depth=3, nulls=False)
    return c.finish()


@check
def p05(c):
    c.witnesses()
    c.replay(c.model("MC_Interp", constants={"MaxPieces": 2 if c.quick else 3}), "exhaustive")
    rnd(c, c.n(600, 8000), "random", "", interp=0.9, lo=0.3, requested=0.2, errs=0.3, explain=0, scope=0.9)
    return c.finish()


@check
def p06(c):
    c.replay(c.model("MC_Settings", constants={"Picked": 4 if c.quick else 1}), "exhaustive")
    c.replay(c.model("MC_Default"), "default hierarchy")
    c.replay(c.model("MC_Glob"), "globs")
    g = Gen(c.rng, interp=0.1, lo=0.15, requested=0.3, errs=0.05, explain=0, scope=0.95, fns=0.5, conv=0.05)
    scs = []
    for i in range(c.n(450, 6000)):
        s = g.scenario("random-%d" % i, "c")
        g.settings(s)
        scs.append(s)
    c.conform(scs, "random")
    return c.finish()


@check
def p07(c):
    c.replay(c.model("MC_Valid", constants={"Full": "FALSE" if c.quick else "TRUE"}), "exhaustive")
    g = Gen(c.rng, interp=0.05, errs=0.9, explain=0, fns=0.3, levels=(1, 3), ops=(3, 5))
    scs = []
    for i in range(c.n(600, 8000)):
        s = g.scenario("random-%d" % i)
        if g.r.random() < 0.8:
            g.spoil(s)
        s.d["ops"] += s.d["ops"][-2:]   # the verdict stays
        scs.append(s)
    c.conform(scs, "random")
    return c.finish()


def names_recursion(sc, o):
    """errors of scenarios in which nothing but recursion can fail must say so"""
    for op, x in zip(o["ops"], o["obs"]):
        if x["r"] == "err" and not re.search("recurs|circular|cycl|loop", x["msg"], re.I):
            return "the error of %s doesn't name the recursion: %s" % (json.dumps(op), x["msg"][:200])
    return None


@check
def p08(c):
    c.replay(c.model("MC_Refs", constants={} if c.quick else {"NKeys": 3, "KeyPairs": 0}), "exhaustive", also=names_recursion)
    g = Gen(c.rng, nulls=False)
    c.conform([g.references("refs-%d" % i) for i in range(c.n(250, 3000))], "references", also=names_recursion)
    rnd(c, c.n(350, 4000), "random", "", interp=0.95, lo=0.3, requested=0.2, errs=0.1, explain=0.2, scope=0.9, keys=4, fns=0.5, ops=(10, 20))
    return c.finish()


@check
def p09(c):
    if not c.quick:
        c.model("MC_Config", constants={"MaxCalls": 3}, timeout=3000)
    else:
        c.model("MC_Config")
    sch = c.schedules("MC_ConfigSched", constants={} if c.quick else {"MaxReads": 4})
    hs = []
    for i, acts in enumerate(sch):
        if c.quick and i % 3 != c.seed % 3:
            continue
        for kind in ("config", "module"):
            if c.quick and c.rng.random() < 0.5:
                continue
            hs.append({"id": "%s-%d" % (kind, i), "kind": kind, "settle": c.rng.random() < 0.8, "bad": c.rng.randrange(5), "acts": acts, "events": []})
    c.histories(hs, "configconc", "ConfigTrace", "config", race=True, shards=8, rounds=(1, 5, 8))
    g = Gen(c.rng, interp=.4, lo=.6, conv=.3, requested=.3, errs=.3, explain=.3, mods=.3, fns=.3, scope=.7)
    c.parallel([g.parallel("parallel-%d" % i) for i in range(c.n(250, 3000))], "parallel")
    return c.finish()


@check
def p10(c):
    c.replay(c.model("MC_History", constants={} if c.quick else {"MaxOps": 5}), "exhaustive")
    g = Gen(c.rng, interp=0.3, lo=0.4, requested=0.3, errs=0.2, explain=0, fns=0.4)
    c.conform([g.history("history-%d" % i) for i in range(c.n(500, 6000))], "histories")
    return c.finish()


@check
def p11(c):
    c.replay(c.model("MC_Scope", constants={} if c.quick else {"Broken": "{FALSE,TRUE}"}), "exhaustive")
    g = Gen(c.rng, interp=0.9, lo=0.1, requested=0.1, errs=0.2, explain=0, scope=0.95, ops=(3, 5), mux=0.3)
    c.conform([g.scopes("scopes-%d" % i) for i in range(c.n(500, 6000))], "scopes")
    return c.finish()


@check
def p14(c):
    c.replay(c.model("MC_Explain", constants={} if c.quick else {"Slots": 3}), "exhaustive")
    g = Gen(c.rng, interp=.5, lo=.6, conv=.3, requested=.3, errs=.3, explain=0, mods=.3, fns=.3, scope=.7)
    c.conform([g.explained("explained-%d" % i) for i in range(c.n(400, 5000))], "explained", also=transparent)
    return c.finish()


def transparent(sc, o):
    """whether an explainer is attached makes no difference to the outcomes of what is looked up by otherwise equal invocations"""
    last = {}
    for op, x in zip(o["ops"], o["obs"]):
        if op["op"] != "lookup":
            last = {}
            continue
        what = json.dumps([op["key"], op.get("opts")], sort_keys=True)
        got = json.dumps([x["r"], x.get("v")], sort_keys=True)
        if op["i"] == "i":
            last = {what: got}
        elif last.get(what, got) != got:
            return "lookup %s yields %s when explained, %s when not" % (what, got[:300], last[what][:300])
    return None


def clear(v):
    """what is visible of a value: everything but what is wrapped as Sensitive"""
    if isinstance(v, dict):
        return {k: clear(x) for k, x in v.items() if k != "z"}
    return [clear(x) for x in v] if isinstance(v, list) else v


def undisclosed(sc, o):
    for op, x in zip(o["ops"], o["obs"]):
        if Gen.MARKER in json.dumps(clear(x.get("v"))):
            return "%s discloses %s: %s" % (json.dumps(op), Gen.MARKER, json.dumps(x["v"])[:300])
        if Gen.MARKER in json.dumps([[e["a"], clear(e["v"])] for e in x.get("log") or []]):
            return "%s reports %s to the explainer" % (json.dumps(op), Gen.MARKER)
    return None


@check
def p15(c):
    c.replay(c.model("MC_Sensitive", constants={} if c.quick else {"Rich": "TRUE"}), "exhaustive")
    g = Gen(c.rng, requested=.2)
    c.conform([g.secrets("secrets-%d" % i) for i in range(c.n(500, 6000))], "secrets", also=undisclosed)
    return c.finish()


@check
def p12(c):
    c.replay(c.model("MC_Plugins", constants={} if c.quick else {"MaxOps": 4}), "exhaustive", shards=12)
    c.replay(c.model("MC_Plugins", constants={"Slow": "TRUE", "MaxOps": 2 if c.quick else 3}), "slow", shards=24)
    c.model("MC_Registry", constants={} if c.quick else {"MaxCalls": 2}, timeout=3000)
    sch = c.schedules("MC_RegistrySched", constants={} if c.quick else {"MaxStarts": 3})
    hs = [{"id": "registry-%d" % i, "settle": c.rng.random() < 0.8, "bad": c.rng.randrange(10), "acts": acts, "events": []}
          for i, acts in enumerate(sch) if not c.quick or i % 3 == c.seed % 3]
    c.histories(hs, "registryconc", "RegistryTrace", "concurrent", race=True, shards=12, rounds=(1, 5, 8))
    g = Gen(c.rng, interp=0.1, lo=0.2, requested=0.2, errs=0.1, explain=0)
    c.conform([g.broken("broken-%d" % i) for i in range(c.n(150, 2500))], "random", shards=12)
    return c.finish()


@check
def p13(c):
    c.replay(c.model("MC_PlugWhere", constants={"Rich": "FALSE" if c.quick else "TRUE"}), "where", shards=8)
    c.replay(c.model("MC_Calls", constants={} if c.quick else {"Rich": "TRUE"}), "exhaustive", shards=12)
    g = Gen(c.rng, interp=0.1, lo=0.2, requested=0.2, errs=0.1, explain=0)
    c.conform([g.plugged("plugged-%d" % i) for i in range(c.n(350, 5000))], "random", shards=12)
    c.conform([g.broken("broken-%d" % i) for i in range(c.n(50, 800))], "broken", shards=12)
    return c.finish()


@check
def p16(c):
    c.replay(c.model("MC_Api", constants={"Rich": "FALSE" if c.quick else "TRUE"}), "exhaustive")
    g = Gen(c.rng, interp=0.1, lo=0.8, conv=0.7, requested=0.3, errs=0.3, explain=0, fns=0.2, dig=0.2, ops=(2, 4))
    c.conform([g.api("api-%d" % i) for i in range(c.n(500, 6000))], "random")
    return c.finish()


def concurrently(c, sc, k, threads):
    """the requests of a scenario in another order, made concurrently"""
    ops = sc["ops"][1:]
    c.rng.shuffle(ops)
    return dict({n: v for n, v in sc.items() if n != "exp"}, id="%s-par%d" % (sc["id"], k), ops=[sc["ops"][0], {"op": "par", "ths": [ops[j::threads] for j in range(threads)]}])


@check
def p17(c):
    c.commands(rest="./hieraserver/rest")
    scs = c.model("MC_Rest", constants={} if c.quick else {"Rich": "TRUE"})
    c.replay(scs, "exhaustive")
    g = Gen(c.rng, interp=0.5, lo=0.4, conv=0.3, requested=0.3, errs=0.25, explain=0, scope=0.8, fns=0, mods=0)
    c.conform([g.rest("rest-%d" % i) for i in range(c.n(250, 3000))], "random")
    still = [s for s in scs if all(o["op"] in ("serve", "req") for o in s["ops"])]
    c.commands(race=True, rest="./hieraserver/rest")
    c.parallel([concurrently(c, s, k, c.rng.choice((2, 4, 8))) for s in still for k in range(c.n(2, 20))]
               + [g.restparallel("parallel-%d" % i) for i in range(c.n(60, 800))], "concurrent")
    return c.finish()


@check
def p18(c):
    c.replay(c.model("MC_Cache", constants={} if c.quick else {"MaxOps": 4}), "exhaustive")
    g = Gen(c.rng, interp=0.3, requested=0.3, errs=0.1)
    c.conform([g.caching("caching-%d" % i) for i in range(c.n(400, 5000))], "random")
    c.histories([g.cachehistory("cache-%d" % i, 30) for i in range(c.n(250, 800))], "cacheconc", "CacheTrace", "concurrent")
    return c.finish()


@check
def p19(c):
    c.replay(c.model("MC_Modules", constants={} if c.quick else {"Rich": "TRUE"}), "exhaustive")
    g = Gen(c.rng, interp=0.4, lo=0.5, conv=0.3, requested=0.3, errs=0.2, explain=0, scope=0.9, fns=0.2, mods=1, ops=(2, 4))
    c.conform([g.inmodules("modules-%d" % i) for i in range(c.n(500, 6000))], "random")
    return c.finish()


@check
def p20(c):
    c.commands(cli="./lookup")
    c.replay(c.model("MC_Cli", constants={} if c.quick else {"Rich": "TRUE"}), "exhaustive")
    g = Gen(c.rng, interp=0.5, lo=0.4, conv=0.3, requested=0.3, errs=0.25, explain=0, scope=0.8, fns=0, mods=0)
    c.conform([g.cli("cli-%d" % i) for i in range(c.n(400, 5000))], "random")
    return c.finish()


@check
def p21(c):
    c.commands(rest="./hieraserver/rest")
    c.replay(c.model("MC_Access", constants={} if c.quick else {"Rich": "TRUE"}), "exhaustive", shards=12)
    g = Gen(c.rng, interp=0.3, lo=0.3, conv=0.2, requested=0.2, errs=0.2, explain=0, scope=0.8, fns=0, mods=0)
    c.conform([g.access("access-%d" % i) for i in range(c.n(300, 4000))], "random", shards=12)
    return c.finish()


@check
def p22(c):
    c.commands(y2j="./yaml2json")
    c.replay(c.model("MC_Yaml", constants={} if c.quick else {"Rich": "TRUE"}), "exhaustive")
    g = Gen(c.rng)
    c.conform([g.documents("documents-%d" % i) for i in range(c.n(150, 2500))], "random")
    return c.finish()


NOTES = {
    "": "Exhaustive within the bounds of the model checking configuration, whose behaviours are replayed on the real code, plus "
        "random executions of the real code that must be behaviours of the specification. Trusts the driver's projection of "
        "values and outcomes and TLC.",
}
