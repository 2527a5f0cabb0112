---------------------------- MODULE HieraSession ----------------------------
(***************************************************************************)
(* Hiera as a state machine: a world of files, sessions that read configs  *)
(* and hold caches, invocations that resolve configs and look up keys.     *)
(* Every action takes the operation of the public API as a record op; the  *)
(* exhaustive configurations choose it from a set and the trace validation *)
(* reads it from a recorded execution.                                     *)
(***************************************************************************)
EXTENDS Eval, Explain, Commands, Access

VARIABLES
  cst,    \* [env, fns]: the environment and the in-process functions; never changes
  files,  \* path -> content
  sess,   \* session id -> [cfgpath, top, provs, modpath, ypath, scope, dia, sc, mods, cache, pl, srv]
  invs,   \* invocation id -> [s, scopes, xp, xo, xoo, rc, hc, elog]: elog is all that was explained
  procs,  \* the plugin processes (see Plugins)
  out     \* observable outcome of the last operation: [r, v, log, calls]

hvars == <<cst, files, sess, invs, procs, out>>

NoCalls == <<>>
Silent == [r |-> "ok", v |-> Null, log |-> <<>>, calls |-> <<>>]
OutOf(x) == [r |-> x.r, v |-> x.v, log |-> x.st.log, calls |-> x.st.calls]

NoArgs == [vars |-> <<>>, varfiles |-> <<>>]

Opt(op, f, d) == IF f \in DOMAIN op THEN op[f] ELSE d

EmptyFn == [x \in {} |-> x]
InitWith(fs, env, fns) ==
  /\ cst = [env |-> env, fns |-> fns]
  /\ files = fs /\ sess = EmptyFn /\ invs = EmptyFn /\ procs = NoWorld /\ out = Silent

\* the config path: explicit, or hiera.yaml / HIERA_CONFIGFILE in the root
CfgPath(op, env) ==
  IF "cfg" \in DOMAIN op THEN op.cfg
  ELSE Join(op.root, IF "cfgname" \in DOMAIN op THEN op.cfgname
                     ELSE IF "HIERA_CONFIGFILE" \in DOMAIN env THEN env["HIERA_CONFIGFILE"] ELSE "hiera.yaml")

SessionFor(op) ==
  [cfgpath |-> CfgPath(op, cst.env), top |-> Opt(op, "top", "config"),
   provs |-> Opt(op, "provs", <<>>), modpath |-> Opt(op, "modpath", <<>>),
   ypath |-> Opt(op, "ypath", ""), scope |-> Opt(op, "scope", EmptyMap), dia |-> Opt(op, "dialect", "dgo"),
   sc |-> EmptyFn, mods |-> EmptyFn, cache |-> EmptyFn, pl |-> NoPlugs, srv |-> NoArgs]
NewSession(op) ==
  /\ sess' = (op.s :> SessionFor(op)) @@ sess
  /\ out' = Silent
  /\ UNCHANGED <<procs, cst, files, invs>>

\* x: "" (no explainer), "d" (data), "do" (data and options), "o" (options only)
InvocationFor(s, scopes, x) ==
  [s |-> s, scopes |-> scopes, xp |-> x # "", xo |-> x \in {"do", "o"}, xoo |-> x = "o", rc |-> EmptyFn, hc |-> EmptyFn, elog |-> <<>>]
NewInvocation(op) ==
  /\ invs' = (op.i :> InvocationFor(op.s, IF "scope" \in DOMAIN op THEN <<op.scope, sess[op.s].scope>> ELSE <<sess[op.s].scope>>, Opt(op, "x", ""))) @@ invs
  /\ out' = Silent
  /\ UNCHANGED <<procs, cst, files, sess>>

\* of an invocation iv of a session s
CtxFor(s, iv) ==
  [cfgpath |-> s.cfgpath, top |-> s.top, provs |-> s.provs, fns |-> cst.fns, env |-> cst.env, dia |-> s.dia,
   modpath |-> s.modpath, ypath |-> s.ypath, scopes |-> iv.scopes, mode |-> "top", strat |-> "first",
   opts |-> EmptyMap, names |-> {}, vars |-> {}, xp |-> iv.xp, xo |-> iv.xo, xoo |-> iv.xoo, red |-> FALSE, so |-> EmptyMap]
StFor(s, iv) ==
  [fs |-> files, sc |-> s.sc, mods |-> s.mods, cache |-> s.cache, pl |-> s.pl, pw |-> procs, rc |-> iv.rc, hc |-> iv.hc,
   log |-> <<>>, calls |-> <<>>]
Ctx(i) == CtxFor(sess[invs[i].s], invs[i])
\* what the operation finds with another scope in effect for its duration
BoundCtx(op) == LET c == Ctx(op.i) IN IF "bind" \in DOMAIN op THEN [c EXCEPT !.scopes = <<op.bind>>] ELSE c
St(i) == StFor(sess[invs[i].s], invs[i])

\* the effect of an evaluation x by invocation i
Commit(i, x) ==
  /\ sess' = [sess EXCEPT ![invs[i].s].sc = x.st.sc, ![invs[i].s].mods = x.st.mods, ![invs[i].s].cache = x.st.cache, ![invs[i].s].pl = x.st.pl]
  /\ invs' = [invs EXCEPT ![i].rc = x.st.rc, ![i].hc = x.st.hc, ![i].elog = @ \o x.st.log]
  /\ out' = OutOf(x)
  /\ procs' = x.st.pw
  /\ UNCHANGED <<cst, files>>

\* the form "string" asks for the string form of the value
Shown(op, x) == IF Opt(op, "form", "") = "string" /\ x.r = "ok" THEN [x EXCEPT !.v = Str(Render(@))] ELSE x
DoLookup(op) == Commit(op.i, Shown(op, LookupSrc(BoundCtx(op), St(op.i), op.key, Opt(op, "opts", EmptyMap))))
DoLookup2(op) ==
  Commit(op.i, Lookup2(BoundCtx(op), St(op.i), op.names, Opt(op, "type", ""), Opt(op, "dflt", No), Opt(op, "over", Null),
                       Opt(op, "defs", Null), Opt(op, "opts", EmptyMap), Opt(op, "df", No)))
DoLookupAll(op) ==
  Commit(op.i, LookupAll(BoundCtx(op), St(op.i), op.names, Opt(op, "types", No), Opt(op, "over", Null),
                         Opt(op, "defs", Null), Opt(op, "opts", EmptyMap), EmptyMap))
\* interpolation on behalf of a provider function
DoInterpolate(op) == Commit(op.i, DoInterp(BoundCtx(op), St(op.i), op.v, TRUE))

\* the explanation of all that the invocation did
DoExplain(op) ==
  LET iv == invs[op.i] IN
  /\ out' = [Silent EXCEPT !.v = IF op.form = "text" THEN Str(ExplainText(iv.elog)) ELSE ExplainTree(iv.elog, iv.xo, iv.xoo)]
  /\ UNCHANGED <<procs, cst, files, sess, invs>>

Write(op) ==
  /\ files' = (op.p :> op.c) @@ files
  /\ out' = Silent /\ UNCHANGED <<procs, cst, sess, invs>>
Remove(op) ==
  /\ files' = [p \in (DOMAIN files) \ {op.p} |-> files[p]]
  /\ out' = Silent /\ UNCHANGED <<procs, cst, sess, invs>>
\* the caller alters the map that it created the session with
MutateScope(op) == out' = Silent /\ UNCHANGED <<procs, cst, files, sess, invs>>

(***************************************************************************)
(* Plugins                                                                 *)
(***************************************************************************)
\* ends the plugins of a session
KillPlugins(op, o) ==
  LET k == KillAll(sess[op.s].pl, procs) IN
  /\ sess' = [sess EXCEPT ![op.s].pl = k.pl] /\ procs' = k.pw
  /\ out' = o /\ UNCHANGED <<cst, files, invs>>
\* the function that the session was created for returns or fails
EndSession(op) == KillPlugins(op, [Silent EXCEPT !.r = IF op.how = "return" THEN "ok" ELSE "err"])
DoProcesses(op) == out' = [Silent EXCEPT !.v = ProcessReport(procs)] /\ UNCHANGED <<procs, cst, files, sess, invs>>

(***************************************************************************)
(* The commands: a REST server is a session and a request an invocation    *)
(* that ends with it.  A command line is a session of its own.             *)
(***************************************************************************)
CommandProviders == <<"config", "environment">>
Serve(op) ==
  LET a == IF "tls" \in DOMAIN op THEN AccessOf(files, op.tls) ELSE Unprotected IN
  IF ~a.ok THEN out' = [Silent EXCEPT !.r = "err"] /\ UNCHANGED <<procs, cst, files, sess, invs>>
  ELSE
  /\ sess' = (op.s :> [SessionFor(op) EXCEPT !.top = "mux", !.provs = CommandProviders,
                                             !.srv = [vars |-> Opt(op, "vars", <<>>), varfiles |-> Opt(op, "varfiles", <<>>), access |-> a]]) @@ sess
  /\ out' = Silent
  /\ UNCHANGED <<procs, cst, files, invs>>
\* the arguments that a command has
Arguments(op, names) ==
  [names |-> names, merge |-> Opt(op, "merge", ""), type |-> Opt(op, "type", ""), shapes |-> Opt(op, "shapes", <<>>),
   dflt |-> IF "dtext" \in DOMAIN op THEN Str(op.dtext) ELSE No, all |-> Opt(op, "all", FALSE), lits |-> Opt(op, "lits", <<>>)]
Request(op) ==
  LET s == sess[op.s]
      sp == CommandScope(files, Opt(op, "lits", <<>>), s.srv.vars \o Opt(op, "vars", <<>>), s.srv.varfiles, <<>>, Nothing)
      iv == InvocationFor(op.s, <<sp.m, EmptyMap>>, "")
      x == CommandLookup(CtxFor(s, iv), StFor(s, iv), Arguments(op, <<op.key>>))
  IN IF ~Admits(s.srv.access, Opt(op, "client", Anybody)) THEN out' = [Silent EXCEPT !.r = "refused"] /\ UNCHANGED <<procs, cst, files, sess, invs>>
     ELSE IF ~sp.ok THEN out' = [Silent EXCEPT !.r = "err"] /\ UNCHANGED <<procs, cst, files, sess, invs>>
     ELSE /\ sess' = [sess EXCEPT ![op.s].sc = x.st.sc, ![op.s].mods = x.st.mods, ![op.s].cache = x.st.cache, ![op.s].pl = x.st.pl]
          /\ procs' = x.st.pw
          /\ out' = [Silent EXCEPT !.r = x.r, !.v = IF x.r = "ok" THEN Exchanged(x.v) ELSE Null, !.calls = x.st.calls]
          /\ UNCHANGED <<cst, files, invs>>
\* yaml2json: a document of plain data with nothing but strings for keys becomes the JSON of the same data
YamlToJson(op) ==
  /\ out' = IF "v" \in DOMAIN op.stdin /\ StringKeyed(op.stdin.v) THEN [Silent EXCEPT !.r = "ok", !.v = Exchanged(op.stdin.v)] ELSE [Silent EXCEPT !.r = "err"]
  /\ UNCHANGED <<procs, cst, files, sess, invs>>
\* what is printed, if anything
CommandOutput(op, x) ==
  LET render == Opt(op, "render", "")
      explain == Opt(op, "explain", "")
      p == Printed(render, x.v)
      tree == ExplainTree(x.st.log, explain \in {"do", "o"}, explain = "o")
      one(v) == [r |-> "ok", v |-> Arr(<<v>>)]
      err == [r |-> "err", v |-> Null]
  IN IF x.r = "err" THEN err
     ELSE IF explain # "" THEN IF render \in {"", "s"} THEN one(Str(ExplainText(x.st.log)))
                               ELSE IF render \in {"yaml", "json"} 
                               THEN one(IF render = "json" THEN Exchanged(tree) ELSE tree)
                               ELSE err
     ELSE IF x.r = "nf" THEN [r |-> "ok", v |-> Arr(<<>>)]
     ELSE IF p = No THEN err
     ELSE IF render = "binary" /\ p = Arr(<<>>) THEN [r |-> "ok", v |-> p]
     ELSE one(p)
CommandLine(op) ==
  LET s == [SessionFor([op EXCEPT !.op = "session"] @@ [root |-> "/R"])
              EXCEPT !.top = "mux", !.provs = CommandProviders, !.dia = Opt(op, "dialect", "pcore")]
      sp == CommandScope(files, Opt(op, "lits", <<>>), Opt(op, "vars", <<>>), Opt(op, "varfiles", <<>>), Opt(op, "factfiles", <<>>), Opt(op, "stdin", Nothing))
      iv == InvocationFor("", <<sp.m, EmptyMap>>, Opt(op, "explain", ""))
      x == CommandLookup(CtxFor(s, iv), StFor(s, iv), Arguments(op, op.names))
      o == CommandOutput(op, x)
      k == KillAll(x.st.pl, x.st.pw)
  IN IF Len(op.names) = 0 \/ ~sp.ok THEN out' = [Silent EXCEPT !.r = "err"] /\ UNCHANGED <<procs, cst, files, sess, invs>>
     ELSE /\ out' = [Silent EXCEPT !.r = o.r, !.v = o.v, !.calls = x.st.calls]
          /\ procs' = k.pw
          /\ UNCHANGED <<cst, files, sess, invs>>

(***************************************************************************)
(* The provider cache                                                      *)
(***************************************************************************)
SetCache(i, c, o) ==
  /\ sess' = [sess EXCEPT ![invs[i].s].cache = c]
  /\ out' = o /\ UNCHANGED <<procs, cst, files, invs>>
Cache(i) == sess[invs[i].s].cache
CachePut(op) ==
  SetCache(op.i, (op.k :> op.v) @@ Cache(op.i),
           IF op.k \in DOMAIN Cache(op.i) THEN [Silent EXCEPT !.v = Cache(op.i)[op.k]] ELSE [Silent EXCEPT !.r = "nf"])
CacheGet(op) ==
  SetCache(op.i, Cache(op.i),
           IF op.k \in DOMAIN Cache(op.i) THEN [Silent EXCEPT !.v = Cache(op.i)[op.k]] ELSE [Silent EXCEPT !.r = "nf"])
RECURSIVE PutPairs(_, _)
PutPairs(c, ps) == IF Len(ps) = 0 THEN c ELSE PutPairs((ps[1][1].s :> ps[1][2]) @@ c, Tail(ps))
CacheAll(op) == SetCache(op.i, PutPairs(Cache(op.i), op.m.m), Silent)
CacheEntries(op) ==
  LET c == Cache(op.i)
      ks == SortStrs(DOMAIN c)
  IN SetCache(op.i, c, [Silent EXCEPT !.v = Map([j \in 1..Len(ks) |-> <<Str(ks[j]), c[ks[j]]>>])])

\* enumerates the entries and stores a copy of each one, unless it is a copy, under a key with the prefix
CacheCopy(op) ==
  LET c == Cache(op.i)
      ks == {k \in DOMAIN c : ~HasPrefix(k, op.pfx)}
  IN SetCache(op.i, [k \in {op.pfx \o k : k \in ks} |-> c[From(k, Len(op.pfx) + 1)]] @@ c, Silent)
\* contexts of provider functions, each with options of its own
CtxOptions(op) ==
  LET get(o) == IF SHas(o, op.k) THEN SGet(o, op.k) ELSE Str("none") IN
  /\ out' = [Silent EXCEPT !.v = Arr(<<get(op.o1), get(op.o2), op.o1, op.o2, op.o1, op.o2>>)]
  /\ UNCHANGED <<procs, cst, files, sess, invs>>

(***************************************************************************)
(* Pure functions of the API                                               *)
(***************************************************************************)
Pure(r, v) == out' = [Silent EXCEPT !.r = r, !.v = v] /\ UNCHANGED <<procs, cst, files, sess, invs>>
DoParseKey(op) == LET k == ParseKey(op.key) IN IF k.ok THEN Pure("ok", Arr(k.parts)) ELSE Pure("err", Null)
DoDig(op) ==
  LET k == ParseKey(op.key)
      d == DigAll(op.v, Tail(k.parts))
  IN IF ~k.ok THEN Pure("err", Null) ELSE IF d.ok THEN Pure("ok", d.v) ELSE Pure("nf", Null)
DoMerge(op) ==
  IF op.strat \notin Strategies THEN Pure("err", Null)
  ELSE IF Len(op.vs) = 0 THEN Pure("nf", Null)
  ELSE Pure("ok", MergeAll(op.strat, op.vs))

Do(op) ==
  CASE op.op = "session" -> NewSession(op)
    [] op.op = "inv" -> NewInvocation(op)
    [] op.op = "lookup" -> DoLookup(op)
    [] op.op = "lookup2" -> DoLookup2(op)
    [] op.op = "lookupall" -> DoLookupAll(op)
    [] op.op = "interp" -> DoInterpolate(op)
    [] op.op = "explain" -> DoExplain(op)
    [] op.op = "write" -> Write(op)
    [] op.op = "remove" -> Remove(op)
    [] op.op = "mutscope" -> MutateScope(op)
    [] op.op = "cacheput" -> CachePut(op)
    [] op.op = "cacheget" -> CacheGet(op)
    [] op.op = "cacheall" -> CacheAll(op)
    [] op.op = "cacheentries" -> CacheEntries(op)
    [] op.op = "cachecopy" -> CacheCopy(op)
    [] op.op = "kill" -> KillPlugins(op, Silent)
    [] op.op = "end" -> EndSession(op)
    [] op.op = "procs" -> DoProcesses(op)
    [] op.op = "serve" -> Serve(op)
    [] op.op = "req" -> Request(op)
    [] op.op = "cli" -> CommandLine(op)
    [] op.op = "y2j" -> YamlToJson(op)
    [] op.op = "ctxopts" -> CtxOptions(op)
    [] op.op = "parsekey" -> DoParseKey(op)
    [] op.op = "dig" -> DoDig(op)
    [] op.op = "merge" -> DoMerge(op)

(***************************************************************************)
(* Invariants of every behaviour                                           *)
(***************************************************************************)
RECURSIVE Nesting(_, _)
Nesting(lg, d) == IF d < 0 THEN d ELSE IF Len(lg) = 0 THEN d
                  ELSE Nesting(Tail(lg), IF lg[1].e \in PushEvents THEN d + 1 ELSE IF lg[1].e = "pop" THEN d - 1 ELSE d)
WellNested == Nesting(out.log, 0) = 0
\* lookup_options itself is never returned as data
LookupOptionsHidden(op, o) ==
  op.op = "lookup" => LET k == ParseKey(op.key) IN (k.ok /\ RootOf(k) = LOKey) => o.r = "nf"
\* a session has at most one process of each executable, and what runs belongs to a session
OnePerExecutable ==
  /\ \A s \in DOMAIN sess : \A q \in DOMAIN sess[s].pl.reg : sess[s].pl.reg[q][1] = q
  /\ \A p \in DOMAIN procs.procs : procs.procs[p].st # "gone" => \E s \in DOMAIN sess : p[1] \in DOMAIN sess[s].pl.reg /\ sess[s].pl.reg[p[1]] = p
OutcomeShape == out.r \in {"ok", "nf", "err", "refused"}
\* configs are read once: a config held by a session never changes (action property)
ConfigOnce == [][\A s \in DOMAIN sess : s \in DOMAIN sess' /\
                   (sess'[s].cfgpath = sess[s].cfgpath =>
                     \A p \in DOMAIN sess[s].sc : p \in DOMAIN sess'[s].sc => sess'[s].sc[p] = sess[s].sc[p])]_hvars
=============================================================================
