"""Runs TLC and the conformance driver on behalf of the checks."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.environ.get("HV_EVIDENCE", os.path.join(VERIF, "evidence"))
# trials of planted bugs are made on a copy
REPO = os.environ.get("HV_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Fault(Exception):
    """Something is wrong with the machinery or its environment: no verdict"""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOWORK="off", HOME="/root")
    return e


def sh(cmd, timeout=600, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    try:
        return subprocess.run(cmd, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise Fault("timeout: %s" % " ".join(cmd)[:200])


class Check:
    def __init__(self, pid, tier=None, seed=None, level="model_checking"):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        s = seed if seed is not None else os.environ.get("VERIF_SEED", "1")
        try:
            self.seed = int(s)
        except ValueError:
            self.seed = int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.level = level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="hv-%s-" % pid)
        os.chmod(self.tmp, 0o755)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.ops = 0
        self.evals = 0
        self.samples = []
        self.notes = []
        self.mc = []
        self.groups = {}
        self.violations = []
        self.known_seen = []
        self.distinct = set()
        self.env = {}
        self.known = load_known(pid)

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- building -------------------------------------------------------
    def build(self, race=False):
        out = os.path.join(self.tmp, "driver-race" if race else "driver")
        if os.path.exists(out):
            return out
        src = os.path.join(self.tmp, "harness")
        if not os.path.exists(src):
            shutil.copytree(HARNESS, src)
            if REPO != "/repo":
                with open(os.path.join(src, "go.mod")) as f:
                    t = f.read().replace("=> /repo", "=> " + REPO)
                with open(os.path.join(src, "go.mod"), "w") as f:
                    f.write(t)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        r = sh(cmd, cwd=src, env=goenv(), timeout=600)
        if r.returncode != 0:
            raise Fault("the driver doesn't build:\n" + r.stdout[-3000:])
        return out

    def commands(self, race=False, **pkgs):
        """builds commands of the repository itself, for the driver to run: HV_NAME=package"""
        for name, pkg in pkgs.items():
            out = os.path.join(self.tmp, name + ("-race" if race else ""))
            r = sh(["go", "build"] + (["-race"] if race else []) + ["-o", out, pkg], cwd=REPO, env=goenv(), timeout=600)
            if r.returncode != 0:
                raise Fault("%s doesn't build:\n%s" % (pkg, r.stdout[-3000:]))
            self.env["HV_" + name.upper()] = out

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, timeout=600, workers=8, args=(), expect_ok=True, keep=None):
        """runs TLC and returns the lines of its output"""
        md = tempfile.mkdtemp(dir=self.tmp, prefix="tlc-")
        sp = os.path.join(md, "spec")
        shutil.copytree(SPEC, sp)
        if keep:
            for n, t in keep.items():
                with open(os.path.join(sp, n), "w") as f:
                    f.write(t)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Xmx12g", "-Xmn4g", "-Xss512m", "-cp", JARS, "tlc2.TLC", "-metadir", md,
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(args) + [module + ".tla"]
        r = sh(cmd, cwd=sp, env=e, timeout=timeout)
        lines = r.stdout.splitlines()
        shutil.rmtree(md, ignore_errors=True)
        if expect_ok and r.returncode != 0:
            raise Fault("TLC %s ended with %d:\n%s\n%s" % (module, r.returncode,
                        "\n".join([l[:300] for l in lines if l.startswith("Error")][:3]), "\n".join(l[:500] for l in lines if not l.startswith('"'))[-3000:]))
        return r.returncode, lines

    @staticmethod
    def printed(lines, tag):
        """the JSON documents that the specification printed with the given tag"""
        res = []
        p = '"' + tag + " "
        for l in lines:
            if l.startswith(p):
                res.append(json.loads(json.loads(l)[len(tag) + 1:]))
        return res

    @staticmethod
    def counts(lines):
        g = d = 0
        for l in lines:
            m = re.match(r"^(\d+) states generated, (\d+) distinct states found", l)
            if m:
                g, d = int(m.group(1)), int(m.group(2))
        return g, d

    def model(self, module, cfg=None, timeout=800, constants=None, tag=None, **kw):
        """exhaustive model checking; returns the scenarios that it exported"""
        cfg = cfg or module + ".cfg"
        keep = {}
        if constants:
            with open(os.path.join(SPEC, cfg)) as f:
                t = f.read()
            for k, v in constants.items():
                t, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % k, r"\g<1> %s" % v, t)
                if n != 1:
                    raise Fault("no constant %s in %s" % (k, cfg))
            keep[cfg] = t
        t0 = time.time()
        _, lines = self.tlc(module, cfg, timeout=timeout, keep=keep, **kw)
        g, d = self.counts(lines)
        if d == 0:
            raise Fault("no states in %s" % module)
        self.states += d
        self.transitions += g
        scs = [fix(s) for s in self.printed(lines, "SCENARIO")]
        self.exported = self.printed(lines, tag) if tag else []
        self.mc.append({"module": module, "constants": constants or {}, "states": d, "transitions": g,
                        "scenarios": len(scs), "wall_s": round(time.time() - t0, 1)})
        for i, s in enumerate(scs):
            s["id"] = "%s-%d" % (module, i)
        return scs

    def schedules(self, module, constants=None):
        """the distinct schedules that the model exports"""
        tag = "SCHEDULE"
        n = len(self.mc)
        self.model(module, constants=constants, tag=tag)
        s = sorted(set(json.dumps(x) for x in self.exported))
        self.mc[n]["scenarios"] = len(s)
        return [json.loads(x) for x in s]

    # ---- conformance ----------------------------------------------------
    def drive(self, scs, shards=6, timeout=700, race=False, env=None):
        """performs the scenarios on the real code"""
        drv = self.build(race)
        d = tempfile.mkdtemp(dir=self.tmp, prefix="drv-")
        e = dict(os.environ)
        e.update(self.env)
        e.update(env or {})
        shards = max(1, min(shards, len(scs)))
        ps = []
        for k in range(shards):
            part = scs[k::shards]
            i, o, s = [os.path.join(d, "%s%d" % (x, k)) for x in ("in", "out", "scratch")]
            with open(i, "w") as f:
                for sc in part:
                    f.write(json.dumps(sc, separators=(",", ":")) + "\n")
            with open(os.path.join(d, "err%d" % k), "w") as ef:
                ps.append((subprocess.Popen([drv, "run", i, o, s], stdout=ef, stderr=ef, env=e), o, k, len(part)))
        res = [None] * len(scs)
        end = time.time() + timeout
        try:
            for p, o, k, n in ps:
                try:
                    rc = p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    raise Fault("the driver didn't finish in time")
                if rc != 0:
                    with open(os.path.join(d, "err%d" % k)) as f:
                        raise Fault("the driver failed: %d %s" % (rc, f.read()[-2000:]))
                with open(o) as f:
                    ls = [json.loads(l) for l in f]
                if len(ls) != n:
                    raise Fault("the driver performed %d of %d scenarios" % (len(ls), n))
                res[k::shards] = ls
        finally:
            for p, _, _, _ in ps:
                if p.poll() is None:
                    p.kill()
        shutil.rmtree(d, ignore_errors=True)
        return res

    def validate(self, obs, timeout=800, workers=8):
        """trace validation with TLC; returns the mismatches, at most one per scenario"""
        if not obs:
            return []
        d = tempfile.mkdtemp(dir=self.tmp, prefix="trace-")
        t = os.path.join(d, "trace.ndjson")
        with open(t, "w") as f:
            for o in obs:
                f.write(json.dumps(strip(o), separators=(",", ":"), ensure_ascii=False) + "\n")
        _, lines = self.tlc("Trace", "Trace.cfg", env={"TRACE": t}, timeout=timeout, workers=workers)
        done = sum(1 for l in lines if l.startswith('"DONE '))
        if done != len(obs):
            raise Fault("%d of %d scenarios were validated" % (done, len(obs)))
        g, dd = self.counts(lines)
        shutil.rmtree(d, ignore_errors=True)
        first = {}
        for m in self.printed(lines, "MISMATCH"):
            k = m["n"]
            if k not in first or m["at"] < first[k]["at"]:
                first[k] = m
        return [first[k] for k in sorted(first)]

    def conform(self, scs, group, shards=6, timeout=800, also=None):
        """replays scenarios and reports each one whose outcome isn't the one of the specification"""
        scs = [json.loads(s.json()) if hasattr(s, "json") else s for s in scs]
        if not scs:
            raise Fault("no scenarios in group " + group)
        t0 = time.time()
        obs = self.drive(scs, shards=shards, timeout=timeout)
        mm = self.validate(obs, timeout=timeout)
        self.account(obs, group, t0)
        bad = self.extra(scs, obs, group, also)
        for m in mm:
            sc = scs[m["n"] - 1]
            if bad >= 3:
                break
            kf = self.known_match(sc, m)
            if kf:
                continue
            if self.confirm(sc, group, m):
                bad += 1
        return bad

    def extra(self, scs, obs, group, also):
        """also(scenario, observed) tells what else is wrong with an execution"""
        bad = 0
        for sc, o in zip(scs, obs) if also else ():
            t = also(sc, o)
            if t and bad < 3:
                again = [x for x in (also(sc, a) for a in self.drive([dict(sc, id="again-%d" % i) for i in range(8)], shards=2)) if x]
                if again:
                    bad += 1
                    self.violation({"group": group, "kind": "observation", "scenario": sc, "what": t, "reproduced": "%d of 8" % len(again)})
        return bad

    def replay(self, scs, group, shards=6, timeout=800, also=None):
        """replays scenarios that carry the outcomes that the specification expects"""
        if not scs:
            raise Fault("no scenarios in group " + group)
        t0 = time.time()
        obs = self.drive(scs, shards=shards, timeout=timeout)
        self.account(obs, group, t0)
        bad = self.extra(scs, obs, group, also)
        for sc, o in zip(scs, obs):
            m = differs(sc, o)
            if m and bad < 3 and not self.known_match(sc, m):
                again = self.drive([dict(sc, id="again-%d" % i) for i in range(8)], shards=2)
                mm = [x for x in (differs(sc, a) for a in again) if x]
                if not mm:
                    self.notes.append("a mismatch in %s (%s) could not be reproduced: %s" % (group, sc.get("id"), json.dumps(m)[:500]))
                    continue
                m = mm[0]
                bad += 1
                self.violation({"group": group, "kind": "conformance", "scenario": shrink(sc, m), "at": m["at"], "op": m["op"],
                                "observed": m["observed"], "expected": m["expected"], "reproduced": "%d of 8" % len(mm)})
        return bad

    def parallel(self, scs, group, shards=8, timeout=700):
        """concurrent operations of several invocations, whose outcomes must be those that each has by itself"""
        scs = [json.loads(s.json()) if hasattr(s, "json") else s for s in scs]
        t0 = time.time()
        d = tempfile.mkdtemp(dir=self.tmp, prefix="par-")
        env = {"GORACE": "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=%s" % os.path.join(d, "race")}
        obs = self.drive(scs, shards=shards, timeout=timeout, race=True, env=env)
        mm = self.validate(obs, timeout=timeout)
        self.account(obs, group, t0)
        bad = 0
        for m in mm[:6]:
            sc = scs[m["n"] - 1]
            again = self.drive([dict(sc, id="again-%d" % i) for i in range(60)], shards=4, race=True, env=env)
            k = len(self.validate(again))
            if k or m["observed"]["r"] == "crash":
                bad += 1
                self.violation({"group": group, "kind": "conformance", "scenario": sc, "at": m["at"], "op": m["op"], "observed": m["observed"],
                                "expected": m["expected"], "reproduced": "%d of 60" % k})
            else:
                self.notes.append("a mismatch in %s (%s) could not be reproduced: %s" % (group, sc.get("id"), json.dumps(m)[:500]))
            if bad >= 2:
                break
        bad += self.races(d, group)
        shutil.rmtree(d, ignore_errors=True)
        return bad

    def account(self, obs, group, t0):
        nops = sum(len(o["ops"]) for o in obs)
        self.traces += len(obs)
        self.ops += nops
        g = self.groups.setdefault(group, {"scenarios": 0, "operations": 0, "outcomes": {}})
        g["scenarios"] += len(obs)
        g["operations"] += nops
        for o in obs:
            for op, x in zip(o["ops"], o["obs"]):
                if op["op"] not in ("session", "inv", "write", "remove"):
                    g["outcomes"][x["r"]] = g["outcomes"].get(x["r"], 0) + 1
            self.distinct.add(hashlib.sha1(json.dumps([o["files"], o["ops"], o["env"], o["fns"]], sort_keys=True).encode()).hexdigest())
        g["wall_s"] = round(g.get("wall_s", 0) + time.time() - t0, 1)
        if len(self.samples) < 3:
            o = obs[self.rng.randrange(len(obs))]
            self.samples.append({"group": group, "files": o["files"], "ops": o["ops"][:6],
                                 "observed": [{k: x.get(k) for k in ("r", "v", "msg")} for x in o["obs"][:6]]})

    def histories(self, hs, cmd, module, group, timeout=600, race=False, shards=1, rounds=(4, 3, 60)):
        """concurrent histories recorded on the real code, each of which must be a behaviour of the module.
        rounds: how often which number of wrong ones is repeated how many times to confirm that they are"""
        t0 = time.time()
        d = tempfile.mkdtemp(dir=self.tmp, prefix="hist-")
        bad = 0
        crashed = []

        def record(hs):
            k = max(1, min(shards, len(hs)))
            ps = []
            env = dict(os.environ)
            if race:
                env["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=%s" % os.path.join(d, "race")
            for j in range(k):
                i, o, s = [os.path.join(d, "%s%d" % (x, j)) for x in ("in", "out", "scratch")]
                with open(i, "w") as f:
                    f.write("".join(json.dumps(h) + "\n" for h in hs[j::k]))
                ef = open(os.path.join(d, "err%d" % j), "w")
                ps.append((subprocess.Popen([self.build(race), cmd, i, o, s], stdout=ef, stderr=ef, env=env), o, j, ef))
            ls = []
            for p, o, j, ef in ps:
                try:
                    rc = p.wait(timeout)
                except subprocess.TimeoutExpired:
                    for q in ps:
                        q[0].kill()
                    raise Fault("%s didn't finish in time" % cmd)
                ef.close()
                part = []
                if os.path.exists(o):
                    with open(o) as f:
                        part = [json.loads(l) for l in f]
                if rc != 0:
                    with open(os.path.join(d, "err%d" % j)) as f:
                        t = f.read()
                    if "driver: " in t or not ("fatal error:" in t or "panic:" in t):
                        raise Fault("%s ended with %d: %s" % (cmd, rc, t[-2000:]))
                    crashed.append({"history": (hs[j::k] + [None])[len(part)], "output": t[:1500]})
                elif len(part) != len(hs[j::k]):
                    raise Fault("%d of %d histories" % (len(part), len(hs[j::k])))
                ls += part
            o = os.path.join(d, "all")
            with open(o, "w") as f:
                f.write("".join(json.dumps(x) + "\n" for x in ls))
            if not ls:
                return [], ls
            _, lines = self.tlc(module, module + ".cfg", env={"TRACE": o}, timeout=timeout)
            g, n = self.counts(lines)
            self.states += n
            self.transitions += g
            done = {int(l[6:-1]) for l in lines if l.startswith('"DONE ')}
            return [x for j, x in enumerate(ls) if j + 1 not in done and x["events"]], ls
        wrong, ls = record(hs)
        if wrong:
            # a recorded history stands for itself: it isn't a behaviour. It counts when others of the kind aren't either
            again = []
            for k in range(rounds[0]):
                again += record([dict(w, events=[], id="again-%s-%d" % (w["id"], j)) for w in wrong[:rounds[1]] for j in range(rounds[2])])[0]
            for w in (wrong[:1] if again else ()):
                bad += 1
                self.violation({"group": group, "kind": "history", "what": "a history of concurrent calls that isn't a behaviour of " + module,
                                "history": w, "module": module, "reproduced": len(again)})
            if not again:
                self.notes.append("a history in %s that wasn't a behaviour could not be reproduced" % group)
        if crashed:
            bad += 1
            self.violation(dict(crashed[0], group=group, kind="crash", what="concurrent calls ended the process: " + crashed[0]["output"].split("\n")[0]))
        bad += self.races(d, group)
        self.traces += len(ls)
        n = sum(len(x["events"]) for x in ls)
        self.ops += n // 2
        self.groups[group] = {"scenarios": len(ls), "operations": n // 2, "wall_s": round(time.time() - t0, 1)}
        for x in ls:
            self.distinct.add(hashlib.sha1(json.dumps(x["events"], sort_keys=True).encode()).hexdigest())
        shutil.rmtree(d, ignore_errors=True)
        return bad

    def races(self, d, group):
        """the reports of the race detector, but for the one that is known to be benign: strings cache their hash"""
        seen = set()
        for n in sorted(os.listdir(d)):
            if not n.startswith("race."):
                continue
            with open(os.path.join(d, n)) as f:
                t = f.read()
            for rep in t.split("WARNING: DATA RACE")[1:]:
                tops = re.findall(r"(?m)^(?:Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic \w+) at .*\n\s+(\S+)\(", rep)
                if tops and all(x.endswith(".HashCode") for x in tops):
                    continue
                if tuple(tops) in seen:
                    continue
                seen.add(tuple(tops))
                if len(seen) <= 2:
                    self.violation({"group": group, "kind": "race", "what": "data race: " + " / ".join(tops), "report": rep[:4000]})
        return len(seen)

    def confirm(self, sc, group, m, times=8):
        """a mismatch counts when it is seen again"""
        again = [dict(sc, id="again-%d" % i) for i in range(times)]
        obs = self.drive(again, shards=2)
        mm = self.validate(obs, workers=4)
        if not mm:
            self.notes.append("a mismatch in %s (%s) could not be reproduced: %s" % (group, sc.get("id"), json.dumps(m)[:500]))
            return False
        m = mm[0]
        self.violation({"group": group, "kind": "conformance", "scenario": shrink(sc, m), "at": m["at"], "op": m["op"],
                        "observed": m["observed"], "expected": m["expected"], "reproduced": "%d of %d" % (len(mm), times)})
        return True

    def witnesses(self):
        """performs the scenarios of the known findings of this property: each must fail precisely as recorded"""
        for k in self.known:
            sc = dict(k["scenario"], id="witness-" + k["id"])
            o = self.drive([sc], shards=1)[0]
            self.account([o], "known findings", time.time())
            m = differs(sc, o)
            if m is None:
                self.notes.append("known finding %s isn't seen any longer" % k["id"])
                continue
            got = {"at": m["at"], "r": m["observed"]["r"], "v": m["observed"].get("v")}
            if got == k["observed"]:
                self.known_seen.append(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
            else:
                self.violation({"group": "known findings", "kind": "conformance", "scenario": sc, "at": m["at"], "op": m["op"],
                                "observed": m["observed"], "expected": m["expected"]})

    def known_match(self, sc, m):
        return None

    # ---- verdict --------------------------------------------------------
    def violation(self, doc):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        doc["property"] = self.pid
        t = json.dumps(doc, indent=1, ensure_ascii=False)
        p = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(t.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write(t + "\n")
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if doc.get("kind") == "conformance":
            print("  %s: %s\n    observed %s\n    expected %s" % (
                doc["group"], cut(doc["op"]), cut(doc["observed"]), cut(doc["expected"])))
        else:
            print("  %s: %s" % (doc.get("group"), cut(doc.get("what", ""))))
        sys.stdout.flush()

    def finish(self, rule=None, assumptions=(), exhaustive=False):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "operations_validated": self.ops,
               "evaluations": self.evals or self.ops,
               "distinct_nontrivial": len(self.distinct),
               "rule": rule or "a scenario is a world of files, functions and variables with a sequence of API "
                               "operations; it is distinct when these differ",
               "model_checking_runs": self.mc, "groups": self.groups, "samples": self.samples}
        if self.notes:
            cov["notes"] = self.notes
        if self.known_seen:
            cov["known_findings"] = self.known_seen
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        print("%s %s seed=%d: %d model states, %d scenarios (%d operations) validated, %d violations, %.0fs" % (
            self.pid, self.tier, self.seed, self.states, self.traces, self.ops, len(self.violations), ev["wall_s"]))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def canon(v):
    if "a" in v:
        return ("a", tuple(canon(x) for x in v["a"]))
    if "m" in v:
        return ("m", frozenset((canon(k), canon(x)) for k, x in v["m"]))
    if "z" in v:
        return ("z", canon(v["z"]))
    return tuple(sorted(v.items(), key=str))


def differs(sc, o):
    """the first operation whose outcome isn't the expected one"""
    null = {"n": "null"}
    for j, (op, e, x) in enumerate(zip(o["ops"], sc["exp"], o["obs"])):
        ok = e["r"] == x["r"] and (e["r"] != "ok" or canon(e["v"]) == canon(x.get("v", null)))
        if ok and "l" in sc["cmp"]:
            ok = [(a["e"], a["a"], canon(a["v"])) for a in e["log"]] == [(a["e"], a["a"], canon(a["v"])) for a in x["log"]]
        if ok and "c" in sc["cmp"]:
            ok = [(a["f"], a["k"], canon(a["o"])) for a in e["calls"]] == [(a["f"], a["k"], canon(a["o"])) for a in x["calls"]]
        if not ok:
            return {"at": j + 1, "op": op, "observed": x, "expected": e}
    return None


def cut(x):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)
    return s if len(s) < 700 else s[:700] + "..."


def fix(s):
    """TLC prints empty functions as empty arrays"""
    for k in ("env", "fns"):
        if s.get(k) == []:
            s[k] = {}
    s.setdefault("cmp", "")
    s.setdefault("env", {})
    s.setdefault("fns", {})
    return s


def strip(o):
    """what the specification needs to see of a recorded execution"""
    o = dict(o)
    o.pop("meta", None)
    o["obs"] = [{k: v for k, v in x.items() if k != "msg"} for x in o["obs"]]
    # TLA+ values of one kind must be comparable: an absent value is null
    for x in o["obs"]:
        x.setdefault("v", {"n": "null"})
    return o


def shrink(sc, m):
    """the operations up to the one that mismatched"""
    s = dict(sc)
    if any(op["op"] == "par" for op in sc["ops"]):
        return s
    s["ops"] = sc["ops"][:m["at"]]
    if "exp" in s:
        s["exp"] = sc["exp"][:m["at"]]
    return s


def load_known(pid):
    res = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")) as f:
            for l in f:
                if l.strip() and not l.startswith("fixed:"):
                    d = json.loads(l)
                    if d.get("property") == pid:
                        res.append(d)
    except FileNotFoundError:
        pass
    return res
