-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* The semantics of one lookup, as a state passing interpreter that is     *)
(* structured like the implementation: one operator per critical step.     *)
(*                                                                         *)
(* ctx (what an invocation knows; never changed, only extended for a sub   *)
(* computation):                                                           *)
(*   cfgpath, top ("config" | "mux" | "yaml"), provs (providers of mux),   *)
(*   fns (in-process functions), env, modpath, ypath, scopes (innermost    *)
(*   first), mode ("top" | "lo" | "data"), strat, opts (options of the     *)
(*   current provider context), names (keys being looked up), vars         *)
(*   (variables being interpolated), xp/xo/xoo (an explainer is attached,  *)
(*   wants options, wants only options), red (values must be redacted)     *)
(* st (what evaluation changes):                                           *)
(*   fs    the file system                          (world)                *)
(*   sc    configs read by the session              (session)              *)
(*   mods  modules discovered by the session        (session)              *)
(*   cache the provider cache                       (session)              *)
(*   rc    resolved configs                         (invocation)           *)
(*   hc    what data_hash functions have yielded     (invocation)           *)
(*   log   explain events, calls: calls of in-process functions (history)  *)
(* A result is [r |-> "ok" | "nf" | "err", v, st].                         *)
(***************************************************************************)
EXTENDS Config, Keys, Merge, Plugins

Res(r, v, st) == [r |-> r, v |-> v, st |-> st]
Ok(v, st) == Res("ok", v, st)
Nf(st) == Res("nf", Null, st)
Er(st) == Res("err", Null, st)

(***************************************************************************)
(* Explaining                                                              *)
(***************************************************************************)
RedactedText == "value redacted"
Ev(ctx, st, e, a) == IF ctx.xp THEN [st EXCEPT !.log = Append(@, [e |-> e, a |-> a, v |-> Null])] ELSE st
EvV(ctx, st, e, a, v) ==
  IF ctx.xp THEN [st EXCEPT !.log = Append(@, [e |-> e, a |-> a, v |-> IF ctx.red THEN Str(RedactedText) ELSE v])]
  ELSE st
EvM(ctx, st, strat) == IF ctx.xp THEN [st EXCEPT !.log = Append(@, [e |-> "merge", a |-> strat, v |-> IF strat = "deep" THEN ctx.so ELSE EmptyMap])] ELSE st
Pop(ctx, x) == IF ctx.xp THEN [x EXCEPT !.st = Ev(ctx, x.st, "pop", "")] ELSE x
Found(ctx, x, a) == IF x.r = "ok" THEN [x EXCEPT !.st = EvV(ctx, x.st, "found", a, x.v)]
                    ELSE IF x.r = "nf" THEN [x EXCEPT !.st = Ev(ctx, x.st, "nf", a)]
                    ELSE x

ForData(ctx) == [ctx EXCEPT !.mode = "data", !.xp = @ /\ ~ctx.xoo]
ForLO(ctx) == IF ctx.mode = "lo" THEN ctx
              ELSE [ctx EXCEPT !.mode = "lo", !.xp = @ /\ (ctx.xo \/ ctx.xoo)]
ForConfig(ctx) == [ctx EXCEPT !.xp = FALSE]

(***************************************************************************)
(* Scope: the first scope that has the variable, invocation before session *)
(***************************************************************************)
RECURSIVE ScopeGet(_, _)
ScopeGet(scopes, name) ==
  IF Len(scopes) = 0 THEN [ok |-> FALSE, v |-> Null]
  ELSE IF SHas(scopes[1], name) THEN [ok |-> TRUE, v |-> SGet(scopes[1], name)]
  ELSE ScopeGet(Tail(scopes), name)

(***************************************************************************)
(* Digging with explain events                                             *)
(***************************************************************************)
RECURSIVE DigX(_, _, _, _)
DigX(ctx, st, v, parts) ==
  IF Len(parts) = 0 THEN Ok(v, st)
  ELSE LET p  == parts[1]
           d  == DigOne(v, p)
           s1 == Ev(ctx, st, "segment", SegText(p))
           x  == Pop(ctx, Found(ctx, Res(IF d.ok THEN "ok" ELSE "nf", d.v, s1), SegText(p)))
       IN IF x.r = "ok" THEN DigX(ctx, x.st, x.v, Tail(parts)) ELSE x
Dig(ctx, st, v, key) ==
  IF Len(key.parts) = 1 THEN Ok(v, st)
  ELSE Pop(ctx, DigX(ctx, Ev(ctx, st, "sublookup", key.src), v, Tail(key.parts)))

(***************************************************************************)
(* The expression of an interpolation: a method call or a variable         *)
(***************************************************************************)
EmptyExprs == {"", "::", "\"\"", "''", "\"::\"", "'::'"}
Methods == {"scope", "alias", "strict_alias", "hiera", "lookup", "literal"}
ExprOf0(expr) ==
  LET p == Index(expr, "(")
      nm == Upto(expr, p - 1)
      q == IF p = 0 THEN "" ELSE Ch(expr, p + 1)
      inner == SubSeq(expr, p + 2, Len(expr) - 2)
  IN IF /\ p > 1 /\ AllIn(nm, WordChars)
        /\ Len(expr) >= p + 4
        /\ q \in {"\"", "'"}
        /\ Ch(expr, Len(expr)) = ")" /\ Ch(expr, Len(expr) - 1) = q
        /\ ~Contains(inner, q)
     THEN [m |-> nm, x |-> inner, call |-> TRUE]
     ELSE [m |-> "scope", x |-> expr, call |-> FALSE]
ExprOfF == [x \in Any |-> ExprOf0(x[1])]
ExprOf(expr) == ExprOfF[<<expr>>]

(***************************************************************************)
(* convert_to                                                              *)
(***************************************************************************)
Truths == {"true", "yes", "y"}
Falses == {"false", "no", "n"}
ConvTypes == {"int", "float", "string", "bool", "sensitive", "sensitive[string]", "any"}
SensTypes == {"sensitive", "sensitive[string]"}
\* floats are decimal strings with a fraction
FltChars == Digits \cup {"."}
IsDec(str) == LET u == Unsigned(str)
                  p == Index(u, ".")
              IN AllIn(u, FltChars) /\ p > 1 /\ p < Len(u) /\ AllIn(From(u, p + 1), Digits)
Trunc(str) == IntOf(Upto(str, Index(str, ".") - 1))
HexOf == [c \in Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"} |->
            IF c \in Digits THEN DigitVal[c] ELSE 9 + (IF c \in Uppers THEN Index("ABCDEF", c) ELSE Index("abcdef", c))]
RECURSIVE RadixOf(_, _, _)
RadixOf(str, radix, acc) == IF Len(str) = 0 THEN acc ELSE RadixOf(From(str, 2), radix, acc * radix + HexOf[Ch(str, 1)])
IsRadix(str, radix) == LET u == Unsigned(str) IN
  Len(u) > 0 /\ Len(u) < 8 /\ \A j \in 1..Len(u) : Ch(u, j) \in DOMAIN HexOf /\ HexOf[Ch(u, j)] < radix
\* the formats for strings and non-negative integers that are modelled
Formats == {"%s", "%4s", "%-4s", "%d", "%04d", "%4d", "%x"}
RECURSIVE PadTo(_, _, _)
PadTo(str, pad, left) == IF Len(str) >= 4 THEN str ELSE PadTo(IF left THEN pad \o str ELSE str \o pad, pad, left)
RECURSIVE Hex(_)
Hex(i) == (IF i >= 16 THEN Hex(i \div 16) ELSE "") \o Ch("0123456789abcdef", (i % 16) + 1)
Formatted(f, v) ==
  LET x == IF IsStr(v) THEN v.s ELSE ToString(v.i) IN
  CASE f \in {"%s", "%d"} -> x [] f \in {"%4s", "%4d"} -> PadTo(x, " ", TRUE) [] f = "%-4s" -> PadTo(x, " ", FALSE)
    [] f = "%04d" -> PadTo(x, "0", TRUE) [] f = "%x" -> Hex(v.i)
\* the text of a float that is the given integer: with an exponent from a million up
RECURSIVE NoTrail(_)
NoTrail(str) == IF Len(str) > 0 /\ Ch(str, Len(str)) = "0" THEN NoTrail(Upto(str, Len(str) - 1)) ELSE str
FltText(i) == LET t == ToString(i)
                  neg == HasPrefix(t, "-")
                  u == IF neg THEN From(t, 2) ELSE t
                  r == NoTrail(From(u, 2))
                  n == Len(u) - 1
              IN IF n < 6 THEN t \o ".0"
                 ELSE (IF neg THEN "-" ELSE "") \o Ch(u, 1) \o (IF r = "" THEN "" ELSE "." \o r) \o "E+" \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
\* args: the arguments of the conversion besides the value
ConvertTo(t, args, v, st) ==
  CASE t \in SensTypes -> IF Len(args) > 0 THEN Er(st) ELSE Ok(IF IsSens(v) THEN v ELSE Sens(v), st)
    [] t = "any" -> IF Len(args) > 0 THEN Er(st) ELSE Ok(v, st)
    [] t = "string" -> IF Len(args) = 0 THEN Ok(Str(Render(v)), st)
                       ELSE IF Len(args) = 1 /\ IsStr(args[1]) /\ args[1].s \in Formats /\ ((IsStr(v) /\ HasSuffix(args[1].s, "s")) \/ (IsInt(v) /\ ~HasSuffix(args[1].s, "s")))
                            THEN Ok(Str(Formatted(args[1].s, v)), st)
                       ELSE Er(st)
    [] t = "int" ->
         IF Len(args) > 1 \/ (Len(args) = 1 /\ args[1] \notin {IntV(2), IntV(8), IntV(10), IntV(16)}) THEN Er(st)
         ELSE IF IsInt(v) \/ IsBig(v) THEN Ok(v, st)
         ELSE IF IsBool(v) THEN Ok(IntV(IF v.b THEN 1 ELSE 0), st)
         ELSE IF IsFlt(v) THEN Ok(IntV(Trunc(v.f)), st)
         ELSE IF IsStr(v) /\ (Len(args) = 0 \/ args[1] = IntV(10)) /\ IsInt32(v.s) /\ v.s # "" THEN Ok(IntV(IntOf(v.s)), st)
         ELSE IF IsStr(v) /\ Len(args) = 1 /\ args[1].i > 0 /\ IsRadix(v.s, args[1].i)
              THEN Ok(IntV((IF Ch(v.s, 1) = "-" THEN -1 ELSE 1) * RadixOf(Unsigned(v.s), args[1].i, 0)), st)
         ELSE Er(st)
    [] t = "float" -> IF Len(args) > 0 THEN Er(st)
                      ELSE IF IsFlt(v) THEN Ok(v, st)
                      ELSE IF IsInt(v) THEN Ok([f |-> FltText(v.i)], st)
                      ELSE IF IsBool(v) THEN Ok([f |-> IF v.b THEN "1.0" ELSE "0.0"], st)
                      ELSE IF IsStr(v) /\ IsDec(v.s) THEN Ok([f |-> v.s], st)
                      ELSE IF IsStr(v) /\ IsInt32(v.s) THEN Ok([f |-> FltText(IntOf(v.s))], st)
                      ELSE Er(st)
    [] t = "bool" -> IF Len(args) > 0 THEN Er(st)
                     ELSE IF IsBool(v) THEN Ok(v, st)
                     ELSE IF IsInt(v) THEN Ok(Bool(v.i # 0), st)
                     ELSE IF IsBig(v) THEN Ok(Bool(TRUE), st)
                     ELSE IF IsFlt(v) THEN Ok(Bool(\E j \in 1..Len(v.f) : Ch(v.f, j) \in Digits \ {"0"}), st)
                     ELSE IF IsStr(v) /\ ToLower(v.s) \in Truths THEN Ok(Bool(TRUE), st)
                     ELSE IF IsStr(v) /\ ToLower(v.s) \in Falses THEN Ok(Bool(FALSE), st)
                     ELSE Er(st)
    [] OTHER -> Er(st)

\* the conversion that lookup options ask for: [r |-> "none" | "ok" | "err", t, args]
NoConv(r) == [r |-> r, t |-> "", args |-> <<>>]
\* the names that the types have in the dialect of Puppet
PcoreTypes == [Integer |-> "int", Float |-> "float", String |-> "string", Boolean |-> "bool", Any |-> "any", Sensitive |-> "sensitive"]
TypeName(dia, t) == IF dia # "pcore" THEN t ELSE IF t \in DOMAIN PcoreTypes THEN PcoreTypes[t] ELSE ""
Conversion0(lo, dia) ==
  LET has == IsMap(lo) /\ SHas(lo, "convert_to")
      ct  == SGet(lo, "convert_to")
      ts  == IF IsArr(ct) THEN ct.a[1] ELSE ct
  IN IF ~has \/ (IsArr(ct) /\ Len(ct.a) = 0) THEN NoConv("none")
     ELSE IF ~IsStr(ts) \/ TypeName(dia, ts.s) \notin ConvTypes THEN NoConv("err")
     ELSE [r |-> "ok", t |-> TypeName(dia, ts.s), args |-> IF IsArr(ct) THEN Tail(ct.a) ELSE <<>>]
ConversionF == [x \in Any |-> Conversion0(x[1], x[2])]
Conversion(ctx, lo) == ConversionF[<<lo, ctx.dia>>]

(***************************************************************************)
(* The merge strategy: explicit option, else lookup options, else first.   *)
(* No is a value that stands for "not given".                              *)
(***************************************************************************)
No == [no |-> "no"]
Given1(v) == v # No
StratName(o) == IF ~Given1(o) THEN "first"
                ELSE IF IsStr(o) THEN o.s
                ELSE IF IsMap(o) THEN (IF SHas(o, "strategy") /\ IsStr(SGet(o, "strategy")) THEN SGet(o, "strategy").s ELSE "")
                ELSE "first"
OptionOf(opts, name) == IF SHas(opts, name) THEN SGet(opts, name) ELSE No
\* [ok, strat, st]
SelectStrategy(ctx, st, lo) ==
  LET cli == OptionOf(ctx.opts, "merge")
      lom == IF IsMap(lo) THEN OptionOf(lo, "merge") ELSE No
      o   == IF Given1(cli) THEN cli ELSE lom
      s1  == IF Given1(cli) THEN Ev(ctx, st, "mergesource", "CLI option")
             ELSE IF Given1(lom) THEN Ev(ctx, st, "mergesource", "\"lookup_options\" hash") ELSE st
      nm  == StratName(o)
  IN [ok |-> nm \in Strategies, strat |-> nm, st |-> s1,
      \* the options of a strategy: only deep has any
      so |-> IF nm = "deep" /\ IsMap(o) THEN Map(SelectSeq(o.m, LAMBDA e : e[1] # Str("strategy"))) ELSE EmptyMap]

LOKey == "lookup_options"
RootKey(name) == [ok |-> TRUE, src |-> name, parts |-> <<Str(name)>>]

NoLoc == [k |-> "none", orig |-> "", res |-> "", ex |-> FALSE]
BuiltinHash == {"yaml_data", "json_data"}
BuiltinKey == {"environment", "scope"}

RECURSIVE Lookup(_, _, _, _), LookupSrc(_, _, _, _), Top(_, _, _), ConfigAt(_, _, _, _, _), ConfigGet(_, _, _, _),
          Resolve(_, _, _, _, _), ResolveDefaults(_, _, _, _), ResolveHier(_, _, _, _, _), ResolveOptions(_, _, _, _),
          ResolveEntries(_, _, _, _, _, _), ResolveEntry(_, _, _, _, _),
          ResolveFn(_, _, _, _, _), ResolveDataDir(_, _, _, _, _, _), ResolvePluginDir(_, _, _, _, _, _, _),
          ResolveOpts(_, _, _, _, _, _, _, _), Resolved(_, _, _), ResolvedEntry(_, _, _, _, _, _, _),
          ResolveLocs(_, _, _, _, _, _), MapLocs(_, _, _, _, _, _),
          WithOptions(_, _, _, _, _),
          MergeLookup(_, _, _, _, _), MergeRest(_, _, _, _, _, _), FirstOf(_, _, _, _, _), CallVariant(_, _, _, _, _),
          MergeLocs(_, _, _, _, _), Invoke(_, _, _, _, _), ProvLookup(_, _, _, _, _), DataHash(_, _, _, _),
          CallFn(_, _, _, _, _), CallBeh(_, _, _, _, _), CallEntry(_, _, _, _, _), CallPlugin(_, _, _, _, _, _, _), CallTop(_, _, _, _), ModuleAt(_, _, _),
          DoInterp(_, _, _, _), InterpSeq(_, _, _, _, _), InterpPairs(_, _, _, _, _),
          InterpStr(_, _, _, _), InterpScan(_, _, _, _, _, _, _), InScope(_, _, _, _)

(***************************************************************************)
(* Lookup of a (possibly dotted) key                                       *)
(***************************************************************************)
LookupSrc(ctx, st, src, opts) ==
  LET key == ParseKey(src) IN IF key.ok THEN Lookup(ctx, st, key, opts) ELSE Er(st)

Lookup(ctx, st, key, opts) ==
  LET root == RootOf(key) IN
  IF root = LOKey
  THEN Pop(ctx, Nf(Ev(ctx, Ev(ctx, st, "invalid", key.src), "nf", key.src)))
  ELSE IF key.src \in ctx.names THEN Er(st)
  ELSE LET c1 == [ctx EXCEPT !.names = @ \cup {key.src}]
           \* a nested lookup is subjected to its own lookup options
           c2 == [c1 EXCEPT !.opts = opts, !.mode = IF @ = "data" THEN "top" ELSE @]
           x  == Top(c2, st, root)
           dc == ForData(c1)
           y  == DoInterp(dc, x.st, x.v, TRUE)
       IN IF x.r # "ok" THEN x
          ELSE IF y.r = "err" THEN y
          ELSE IF y.r = "nf" THEN (IF Len(key.parts) = 1 THEN y
                                   ELSE \* digging into nothing: the first segment isn't found
                                        LET p == SegText(key.parts[2])
                                            s1 == Ev(dc, Ev(dc, y.st, "sublookup", key.src), "segment", p)
                                        IN Pop(dc, Pop(dc, Nf(Ev(dc, s1, "nf", p)))))
          ELSE Dig(dc, y.st, y.v, key)

(***************************************************************************)
(* The top provider                                                        *)
(***************************************************************************)
Variants(kind, sq) == [j \in 1..Len(sq) |-> [k |-> kind, x |-> sq[j], j |-> j]]

WithOptions(ctx, st, lo, variants, name) ==
  LET s1 == Ev(ctx, st, "lookup", name)
      sel == SelectStrategy(ctx, s1, lo)
      cv == Conversion(ctx, lo)
      c1 == [ctx EXCEPT !.strat = sel.strat, !.so = sel.so, !.red = @ \/ (cv.r = "ok" /\ cv.t \in SensTypes)]
      x  == MergeLookup(c1, sel.st, sel.strat, variants, name)
  IN Pop(ctx, IF ~sel.ok THEN Er(sel.st)
              ELSE IF cv.r = "err" THEN Er(sel.st)
              ELSE IF x.r = "ok" /\ cv.r = "ok" THEN ConvertTo(cv.t, cv.args, x.v, x.st)
              ELSE x)

Top(ctx, st, name) ==
  IF ctx.top = "mux"
  THEN LET lc == [ForLO(ctx) EXCEPT !.so = EmptyMap]
           lo == MergeLookup(lc, st, "deep", Variants("mux", ctx.provs), name)
       IN IF lo.r = "err" THEN lo
          ELSE WithOptions(ForData(ctx), lo.st, IF lo.r = "ok" THEN lo.v ELSE Null, Variants("mux", ctx.provs), name)
  ELSE CallTop(ctx, st, ctx.top, name)

CallTop(ctx, st, p, name) ==
  CASE p = "config" -> ConfigAt(ctx, st, ctx.cfgpath, name, "")
    [] p = "module" -> ModuleAt(ctx, st, name)
    [] p = "environment" ->
         IF ctx.mode # "lo" /\ HasPrefix(name, "env::") /\ From(name, 6) \in DOMAIN ctx.env
         THEN Ok(Str(ctx.env[From(name, 6)]), st) ELSE Nf(st)
    [] p = "scope" ->
         LET g == ScopeGet(ctx.scopes, name)
         IN IF (ctx.mode # "lo" \/ name = LOKey) /\ g.ok THEN Ok(g.v, st) ELSE Nf(st)
    [] p = "yaml" ->
         \* one file, read once per session and held in the provider cache
         LET ck == "yaml::data"
             cached == ck \in DOMAIN st.cache
             ok == IsFile(st.fs, ctx.ypath) => ("v" \in DOMAIN st.fs[ctx.ypath] /\ IsMap(st.fs[ctx.ypath].v))
             hash == IF cached THEN st.cache[ck]
                     ELSE IF IsFile(st.fs, ctx.ypath) THEN st.fs[ctx.ypath].v ELSE EmptyMap
             s1 == IF cached THEN st ELSE [st EXCEPT !.cache = (ck :> hash) @@ @]
             src == IF ctx.mode # "lo" THEN hash
                    ELSE IF SHas(hash, LOKey) /\ IsMap(SGet(hash, LOKey)) THEN SGet(hash, LOKey) ELSE EmptyMap
         IN IF ~cached /\ (~ok \/ IsDir(st.fs, ctx.ypath)) THEN Er(st)
            ELSE IF SHas(src, name) THEN Ok(SGet(src, name), s1) ELSE Nf(s1)
    [] OTHER -> IF ctx.mode = "lo" THEN Nf(st) ELSE CallFn(ctx, st, p, ctx.opts, name)

(***************************************************************************)
(* A lookup that is governed by a config file                              *)
(***************************************************************************)
ModuleOptions(rc, name, module) ==
  IF IsMap(rc.lo) /\ (module = "" \/ HasPrefix(name, module \o "::")) /\ SHas(rc.lo, name) /\ IsMap(SGet(rc.lo, name))
  THEN SGet(rc.lo, name) ELSE Null

ConfigAt(ctx, st, path, name, module) ==
  LET g == ConfigGet(ctx, st, path, module) IN
  IF g.r = "err" THEN Er(g.st)
  ELSE LET rc == g.v
           lo == ModuleOptions(rc, name, module)
           vs == Variants("prov", rc.provs)
       IN CASE ctx.mode = "lo" -> IF IsMap(lo) THEN Ok(lo, g.st) ELSE Nf(g.st)
            [] ctx.mode = "data" -> MergeLookup([ctx EXCEPT !.opts = EmptyMap], g.st, ctx.strat, vs, name)
            [] OTHER -> WithOptions(ForData(ctx), g.st, lo, vs, name)

\* A config is read once by a session and resolved once by an invocation
ConfigGet(ctx, st, path, module) ==
  IF path \in DOMAIN st.rc THEN Ok(st.rc[path], st)
  ELSE IF path \in DOMAIN st.sc THEN Resolve(ctx, st, path, st.sc[path], module)
  ELSE LET denv == [datadir |-> IF "HIERA_DATADIR" \in DOMAIN ctx.env THEN ctx.env["HIERA_DATADIR"] ELSE "data",
                    plugindir |-> IF "HIERA_PLUGINDIR" \in DOMAIN ctx.env THEN ctx.env["HIERA_PLUGINDIR"] ELSE "plugin"]
           root == DirOf(path)
           valid == IsFile(st.fs, path) /\ "v" \in DOMAIN st.fs[path] /\ ConfigValid(st.fs[path].v)
           cfg == IF IsFile(st.fs, path) THEN ConfigOf(st.fs[path].v, root, denv) ELSE MissingConfig(root, denv)
       IN IF IsDir(st.fs, path) \/ (IsFile(st.fs, path) /\ ~valid) THEN Er(st)
          ELSE Resolve(ctx, [st EXCEPT !.sc = (path :> cfg) @@ @], path, cfg, module)

Resolve(ctx, st, path, cfg, module) ==
  ResolveDefaults(ctx, path, cfg,
    ResolveEntry(ForConfig(ctx), [st EXCEPT !.hc = [h \in {q \in DOMAIN @ : q[1] # path} |-> @[h]]], cfg.defaults, cfg.root, No))
ResolveDefaults(ctx, path, cfg, d) ==
  IF d.r = "err" THEN Er(d.st)
  ELSE ResolveHier(ctx, path, cfg, d.v, ResolveEntries(ForConfig(ctx), d.st, cfg.hier, cfg.root, d.v, <<>>))
ResolveHier(ctx, path, cfg, d, ps) ==
  IF ps.r = "err" THEN Er(ps.st)
  \* the default hierarchy is resolved but never consulted
  ELSE ResolveOptions(ctx, path, [j \in 1..Len(ps.v) |-> [e |-> ps.v[j], id |-> <<path, j>>]],
                      ResolveEntries(ForConfig(ctx), ps.st, cfg.dhier, cfg.root, d, <<>>))
\* pv: the providers, each with its identity (the config and its position)
ResolveOptions(ctx, path, pv, ds) ==
  LET lc == [ForLO(ctx) EXCEPT !.opts = EmptyMap, !.so = EmptyMap] IN
  IF ds.r = "err" THEN Er(ds.st)
  ELSE Resolved(path, pv,
         Pop(lc, MergeLookup(lc, Ev(lc, ds.st, "lookup", LOKey), "deep", Variants("prov", pv), LOKey)))
Resolved(path, pv, lo) ==
  LET rc == [provs |-> pv, lo |-> IF lo.r = "ok" THEN lo.v ELSE Null, fs |-> lo.st.fs] IN
  IF lo.r = "err" THEN Er(lo.st) ELSE Ok(rc, [lo.st EXCEPT !.rc = (path :> rc) @@ @])

ResolveEntries(ctx, st, es, root, d, acc) ==
  IF Len(es) = 0 THEN Ok(acc, st)
  ELSE LET x == ResolveEntry(ctx, st, es[1], root, d) IN
       IF x.r = "err" THEN x ELSE ResolveEntries(ctx, x.st, Tail(es), root, d, Append(acc, x.v))

\* Settings of the entry, else those of the resolved defaults d, else (d = No) the built-in ones
EnvOr(ctx, name, dflt) == IF name \in DOMAIN ctx.env THEN ctx.env[name] ELSE dflt
ResolveEntry(ctx, st, e, root, d) ==
  ResolveFn(ctx, e, root, d,
    IF e.fk = "" THEN Ok(Str(IF Given1(d) THEN d.fn ELSE "yaml_data"), st) ELSE InterpStr(ctx, st, e.fn, FALSE))
ResolveFn(ctx, e, root, d, fn) ==
  IF fn.r = "err" THEN fn
  ELSE ResolveDataDir(ctx, e, root, d, fn.v.s,
         IF e.datadir = "" THEN Ok(Str(IF Given1(d) THEN d.datadir ELSE EnvOr(ctx, "HIERA_DATADIR", "data")), fn.st)
         ELSE InterpStr(ctx, fn.st, e.datadir, FALSE))
ResolveDataDir(ctx, e, root, d, fn, dd) ==
  IF dd.r = "err" THEN dd
  ELSE ResolvePluginDir(ctx, e, root, d, fn, dd.v.s,
         IF e.plugindir = "" THEN Ok(Str(IF Given1(d) THEN d.plugindir ELSE EnvOr(ctx, "HIERA_PLUGINDIR", "plugin")), dd.st)
         ELSE InterpStr(ctx, dd.st, e.plugindir, FALSE))
ResolvePluginDir(ctx, e, root, d, fn, dd, pd) ==
  IF pd.r = "err" THEN pd
  ELSE ResolveOpts(ctx, e, root, d, fn, dd, IF IsAbs(pd.v.s) THEN pd.v.s ELSE Join(root, pd.v.s),
         IF ~e.hasopts THEN Ok(IF Given1(d) THEN d.opts ELSE EmptyMap, pd.st)
         ELSE DoInterp(ctx, pd.st, e.opts, FALSE))
ResolveOpts(ctx, e, root, d, fn, dd, pdir, op) ==
  IF op.r = "err" THEN op
  ELSE ResolvedEntry(e, d, fn, dd, pdir, op.v,
         IF e.lk = "" THEN Ok(<<>>, op.st)
         ELSE ResolveLocs(ctx, op.st, e.lk, e.locs, IF IsAbs(dd) THEN dd ELSE Join(root, dd), <<>>))
ResolvedEntry(e, d, fn, dd, pdir, opts, ls) ==
  IF ls.r = "err" THEN ls
  ELSE Ok([name |-> e.name, fk |-> IF e.fk # "" THEN e.fk ELSE IF Given1(d) THEN d.fk ELSE "data_hash",
           fn |-> fn, datadir |-> dd, plugindir |-> pdir, pluginfile |-> e.pluginfile,
           opts |-> opts, hasloc |-> e.lk # "", locs |-> ls.v], ls.st)

ResolveLocs(ctx, st, kind, ls, droot, acc) ==
  IF Len(ls) = 0 THEN Ok(acc, st)
  ELSE IF kind = "mapped"
  THEN LET g == InScope(ctx, st, ls[1], FALSE)
           vs == IF g.r = "ok" /\ IsStr(g.v) THEN <<g.v>> ELSE IF g.r = "ok" /\ IsArr(g.v) THEN g.v.a ELSE <<>>
       IN IF g.r = "err" THEN g ELSE MapLocs(ctx, g.st, vs, ls, droot, acc)
  ELSE LET x == InterpStr(ctx, st, ls[1], FALSE)
           r == x.v.s
           p == Join(droot, r)
           new == CASE kind = "path" -> <<[k |-> "path", orig |-> ls[1], res |-> p, ex |-> Exists(st.fs, p)]>>
                    [] kind = "uri" -> <<[k |-> "uri", orig |-> ls[1], res |-> r, ex |-> TRUE]>>
                    [] OTHER -> LET ms == GlobPaths(st.fs, p)
                                IN [j \in 1..Len(ms) |-> [k |-> "path", orig |-> ls[1], res |-> ms[j], ex |-> TRUE]]
       IN IF x.r = "err" THEN x ELSE ResolveLocs(ctx, x.st, kind, Tail(ls), droot, acc \o new)

MapLocs(ctx, st, vs, ls, droot, acc) ==
  IF Len(vs) = 0 THEN Ok(acc, st)
  ELSE LET c1 == [ctx EXCEPT !.scopes = <<Map(<< <<Str(ls[2]), vs[1]>> >>)>> \o @]
           x == InterpStr(c1, st, ls[3], FALSE)
           p == Join(droot, x.v.s)
       IN IF x.r = "err" THEN x
          ELSE MapLocs(ctx, x.st, Tail(vs), ls, droot,
                       Append(acc, [k |-> "path", orig |-> ls[3], res |-> p, ex |-> Exists(st.fs, p)]))

(***************************************************************************)
(* Modules                                                                 *)
(***************************************************************************)
ModuleDirs(fs, mp, name) == {d \in DirsOf(fs) : DirOf(d) = mp /\ d # mp /\ ToLower(From(d, Len(mp) + 2)) = name}
RECURSIVE FindModule(_, _, _)
\* the path of the config of the first module found, or ""
FindModule(fs, mps, name) ==
  IF Len(mps) = 0 THEN ""
  ELSE LET ok == {d \in ModuleDirs(fs, mps[1], name) : IsFile(fs, d \o "/hiera.yaml")} IN
       IF ok = {} THEN FindModule(fs, Tail(mps), name) ELSE (CHOOSE d \in ok : TRUE) \o "/hiera.yaml"

ModuleAt(ctx, st, key) ==
  LET ci == Index(key, "::")
      mod == ToLower(Upto(key, ci - 1))
      path == IF mod \in DOMAIN st.mods THEN st.mods[mod] ELSE FindModule(st.fs, ctx.modpath, mod)
      s1 == Ev(ctx, [st EXCEPT !.mods = (mod :> path) @@ @], "module", mod)
  IN IF ci < 2 THEN Nf(st)
     ELSE IF path = "" THEN Pop(ctx, Nf(Ev(ctx, s1, "modnf", "")))
     ELSE Pop(ctx, ConfigAt(ctx, s1, path, key, mod))

(***************************************************************************)
(* Merging of variants                                                     *)
(***************************************************************************)
Label(strat) == strat
MergeLookup(ctx, st, strat, vs, name) ==
  IF Len(vs) = 0 THEN Nf(st)
  ELSE IF Len(vs) = 1
  THEN LET x == CallVariant(ctx, st, strat, vs[1], name) IN
       IF x.r = "ok" THEN [x EXCEPT !.v = Single(strat, @)] ELSE x
  ELSE IF strat = "first" THEN FirstOf(ctx, st, strat, vs, name)
  ELSE Pop(ctx, MergeRest(ctx, EvM(ctx, st, strat), strat, vs, name, <<>>))

FirstOf(ctx, st, strat, vs, name) ==
  IF Len(vs) = 0 THEN Nf(st)
  ELSE LET x == CallVariant(ctx, st, strat, vs[1], name) IN
       IF x.r = "nf" THEN FirstOf(ctx, x.st, strat, Tail(vs), name)
       ELSE IF x.r = "ok" THEN [x EXCEPT !.st = EvV(ctx, x.st, "mergeresult", "", x.v)]
       ELSE x

MergeRest(ctx, st, strat, vs, name, acc) ==
  IF Len(vs) = 0
  THEN IF Len(acc) = 0 THEN Nf(st)
       ELSE LET v == MergeAll(strat, acc) IN Ok(v, EvV(ctx, st, "mergeresult", "", v))
  ELSE LET x == CallVariant(ctx, st, strat, vs[1], name) IN
       IF x.r = "err" THEN x
       ELSE MergeRest(ctx, x.st, strat, Tail(vs), name, IF x.r = "ok" THEN Append(acc, x.v) ELSE acc)

\* A variant is a data provider, a location of one, or a provider of the mux
CallVariant(ctx, st, strat, d, name) ==
  CASE d.k = "prov" -> MergeLocs(ctx, st, strat, d.x, name)
    [] d.k = "loc"  -> Invoke(ctx, st, d.x.p, d.x.l, name)
    [] OTHER        -> CallTop(ctx, st, d.x, name)

ProvLabel(e) == e.name \o "|" \o e.fk \o "|" \o e.fn
MergeLocs(ctx, st, strat, p, name) ==
  LET s1 == Ev(ctx, st, "provider", ProvLabel(p.e))
      ls == p.e.locs
  IN Pop(ctx,
       IF ~p.e.hasloc THEN ProvLookup(ctx, s1, p, NoLoc, name)
       ELSE IF Len(ls) = 0 THEN Nf(s1)
       ELSE IF Len(ls) = 1 THEN Invoke(ctx, s1, p, ls[1], name)
       ELSE MergeLookup(ctx, s1, strat, Variants("loc", [j \in 1..Len(ls) |-> [p |-> p, l |-> ls[j]]]), name))

Invoke(ctx, st, p, loc, name) ==
  LET s1 == Ev(ctx, st, "location", loc.k \o "|" \o loc.orig \o "|" \o loc.res) IN
  Pop(ctx, IF loc.ex THEN ProvLookup(ctx, s1, p, loc, name) ELSE Nf(Ev(ctx, s1, "locnf", "")))

ProvLookup(ctx, st, p, loc, name) ==
  LET opts == IF loc.k = "none" THEN p.e.opts ELSE MPut(p.e.opts, Str("path"), Str(loc.res))
      c1 == [ctx EXCEPT !.opts = opts]
      fn == p.e.fn
      x == CASE p.e.fk = "data_hash" ->
                  LET h == DataHash(c1, st, p, loc) IN
                  IF h.r = "err" THEN h
                  ELSE IF SHas(h.v, name) THEN DoInterp(c1, h.st, SGet(h.v, name), TRUE) ELSE Nf(h.st)
             [] p.e.fk = "lookup_key" /\ fn \in BuiltinKey -> CallTop(c1, st, fn, name)
             [] OTHER -> CallEntry(c1, st, p.e, opts, name)
  IN Found(ctx, x, name)

\* The files are those that existed when the config was resolved
DataHash(ctx, st, p, loc) ==
  LET fs == IF p.id[1] \in DOMAIN st.rc THEN st.rc[p.id[1]].fs ELSE st.fs
      path == IF SHas(ctx.opts, "path") THEN SGet(ctx.opts, "path").s ELSE ""
      id == p.id \o <<path>>
  IN IF p.e.fn \in BuiltinHash
     THEN IF ~SHas(ctx.opts, "path") THEN Er(st)
          ELSE IF IsDir(fs, path) THEN Er(st)
          ELSE IF ~IsFile(fs, path) THEN Ok(EmptyMap, st)
          ELSE IF "v" \in DOMAIN fs[path] /\ IsMap(fs[path].v) THEN Ok(fs[path].v, st)
          ELSE Er(st)
     ELSE IF id \in DOMAIN st.hc THEN Ok(st.hc[id], st)
     ELSE LET x == CallEntry(ctx, st, p.e, ctx.opts, "")
              v == IF x.r = "ok" /\ IsMap(x.v) THEN x.v ELSE EmptyMap
          IN IF x.r = "err" THEN x ELSE Ok(v, [x.st EXCEPT !.hc = (id :> v) @@ @])

(***************************************************************************)
(* In-process functions of the conformance driver.  What they do is given  *)
(* by the scenario: fns[name] = [beh, arg, tab]                            *)
(***************************************************************************)
CallFn(ctx, st, fn, opts, key) ==
  IF fn \notin DOMAIN ctx.fns THEN Er(st)
  ELSE CallBeh(ctx, [st EXCEPT !.calls = Append(@, [f |-> fn, k |-> key, o |-> opts])], ctx.fns[fn], opts, key)

\* the function of a hierarchy entry is one of the process or else one of a plugin
CallEntry(ctx, st, e, opts, key) ==
  IF e.fn \in DOMAIN ctx.fns THEN CallFn(ctx, st, e.fn, opts, key)
  ELSE CallPlugin(ctx, st, e, opts, key, PluginPath(e), LoadPlugin(st.fs, st.pl, st.pw, PluginPath(e), e.fn))
CallPlugin(ctx, st, e, opts, key, path, ld) ==
  LET s0 == [st EXCEPT !.pl = ld.pl, !.pw = ld.pw]
      p == ld.pl.lf[<<path, e.fn>>]
      f == ld.pw.procs[p].x.fns[e.fn]
      op == Exchanged(opts)
      s1 == [s0 EXCEPT !.calls = Append(@, [f |-> e.fn, k |-> key, o |-> op])]
      x == CallBeh(ctx, s1, f, op, key)
  IN IF ~ld.ok \/ ld.pw.procs[p].st # "run" \/ f.kind # e.fk THEN Er(s0)
     ELSE IF f.beh \in BadCalls /\ key = LOKey THEN Nf(s1)
     ELSE IF f.beh = "die" THEN Er([s1 EXCEPT !.pw = Ended(@, {p}, "zombie")])
     ELSE IF f.beh \in BadCalls THEN Er(s1)
     ELSE [x EXCEPT !.v = Exchanged(@)]

CallBeh(ctx, s1, f, opts, key) ==
  LET \* a data_hash function is called without key and yields all of its data
      tab == IF key = "" THEN Ok(f.tab, s1)
             ELSE IF SHas(f.tab, key) THEN Ok(SGet(f.tab, key), s1) ELSE Nf(s1)
  IN CASE f.beh = "table" -> tab
       [] f.beh = "null" -> IF key = LOKey THEN Nf(s1) ELSE Ok(Null, s1)
       [] f.beh = "opts" -> IF key = LOKey THEN Nf(s1) ELSE Ok(opts, s1)
       [] f.beh = "opt" -> IF key # LOKey /\ SHas(opts, f.arg) THEN Ok(SGet(opts, f.arg), s1) ELSE Nf(s1)
       [] f.beh = "err" -> IF key = LOKey THEN Nf(s1) ELSE Er(s1)
       [] f.beh = "errall" -> Er(s1)
       [] f.beh \in {"explain", "explainfor"} -> \* explains what it is about to do, always or just for what it holds
            IF f.beh = "explainfor" /\ tab.r # "ok" THEN tab ELSE LET s2 == Ev(ctx, s1, "text", IF ctx.red THEN RedactedText ELSE f.arg) IN [tab EXCEPT !.st = [@ EXCEPT !.log = s2.log]]
       [] f.beh = "lookup" -> IF key = LOKey THEN Nf(s1) ELSE LookupSrc(ctx, s1, f.arg, EmptyMap)
       [] f.beh = "lookupfor" -> \* only for the keys of the table
            IF key # LOKey /\ SHas(f.tab, key) THEN LookupSrc(ctx, s1, f.arg, EmptyMap) ELSE Nf(s1)
       [] f.beh = "interp" -> IF tab.r # "ok" \/ key = LOKey THEN Nf(s1) ELSE DoInterp(ctx, s1, tab.v, TRUE)
       [] f.beh = "put" ->     \* stores the option "value" under the key, yields what was replaced
            IF key = LOKey THEN Nf(s1)
            ELSE LET s2 == [s1 EXCEPT !.cache = (key :> (IF SHas(opts, f.arg) THEN SGet(opts, f.arg) ELSE Str(key))) @@ @]
                 IN IF key \in DOMAIN s1.cache THEN Ok(s1.cache[key], s2) ELSE Nf(s2)
       [] f.beh = "putfail" -> \* stores the key and fails
            IF key = LOKey THEN Nf(s1) ELSE Er([s1 EXCEPT !.cache = (key :> Str(key)) @@ @])
       [] f.beh = "get" ->
            IF key # LOKey /\ key \in DOMAIN s1.cache THEN Ok(s1.cache[key], s1) ELSE Nf(s1)
       [] OTHER -> Nf(s1)

(***************************************************************************)
(* Interpolation                                                           *)
(***************************************************************************)
DoInterp(ctx, st, v, allow) ==
  IF IsStr(v) THEN InterpStr(ctx, st, v.s, allow)
  ELSE IF IsArr(v) THEN InterpSeq(ctx, st, v.a, allow, <<>>)
  ELSE IF IsMap(v) THEN InterpPairs(ctx, st, v.m, allow, EmptyMap)
  ELSE Ok(v, st)

\* a strict_alias that isn't found becomes null when it is an element
InterpSeq(ctx, st, sq, allow, acc) ==
  IF Len(sq) = 0 THEN Ok(Arr(acc), st)
  ELSE LET x == DoInterp(ctx, st, sq[1], allow) IN
       IF x.r = "err" THEN x ELSE InterpSeq(ctx, x.st, Tail(sq), allow, Append(acc, x.v))

InterpPairs(ctx, st, sq, allow, acc) ==
  IF Len(sq) = 0 THEN Ok(acc, st)
  ELSE LET k == DoInterp(ctx, st, sq[1][1], allow)
           x == DoInterp(ctx, k.st, sq[1][2], allow)
       IN IF k.r = "err" THEN k ELSE IF x.r = "err" THEN x
          ELSE InterpPairs(ctx, x.st, Tail(sq), allow, MPut(acc, k.v, x.v))

InterpStr(ctx, st, str, allow) ==
  IF ~Contains(str, "%{") THEN Ok(Str(str), st)
  ELSE Pop(ctx, InterpScan(ctx, Ev(ctx, st, "interp", IF ctx.red THEN RedactedText ELSE str), str, 1, "", "scope", allow))

\* out is the text produced so far, m the method of the last expression
InterpScan(ctx, st, str, j, out, m, allow) ==
  LET a == IndexFromF[<<str, "%{", j>>]
      b == IF a = 0 THEN 0 ELSE IndexFromF[<<str, "}", a + 2>>]
  IN IF a = 0 \/ b = 0 THEN Ok(Str(out \o From(str, j)), st)
     ELSE
     LET pre  == out \o SubSeq(str, j, a - 1)
         expr == Trim(SubSeq(str, a + 2, b - 1))
         x    == ExprOf(expr)
         whole == a = 1 /\ b = Len(str)
     IN IF expr \in EmptyExprs THEN InterpScan(ctx, st, str, b + 1, pre, m, allow)
        ELSE IF x.call /\ (~allow \/ x.m \notin Methods) THEN Er(st)
        ELSE IF x.m \in {"alias", "strict_alias"}
        THEN IF ~whole THEN Er(st)
             ELSE LET y == LookupSrc(ctx, st, x.x, EmptyMap) IN
                  IF y.r = "nf" /\ x.m = "alias" THEN Ok(Str(""), y.st) ELSE y
        ELSE LET y == CASE x.m = "literal" -> Ok(Str(x.x), st)
                        [] x.m = "scope" -> InScope(ctx, st, x.x, allow)
                        [] OTHER -> LookupSrc(ctx, st, x.x, EmptyMap)
             IN IF y.r = "err" THEN y
                ELSE InterpScan(ctx, y.st, str, b + 1, pre \o (IF y.r = "ok" THEN Render(y.v) ELSE ""), x.m, allow)

InScope(ctx, st, expr, allow) ==
  LET key == ParseKey(expr)
      root == RootOf(key)
      g == ScopeGet(ctx.scopes, root)
      x == DoInterp([ctx EXCEPT !.vars = @ \cup {root}], st, g.v, allow)
  IN IF ~key.ok THEN Er(st)
     ELSE IF ~g.ok THEN Nf(st)
     ELSE IF root \in ctx.vars THEN Er(st)
     ELSE IF x.r = "err" THEN x
     ELSE IF x.r = "nf" THEN (IF Len(key.parts) = 1 THEN x
                              ELSE LET p == SegText(key.parts[2])
                                       s1 == Ev(ctx, Ev(ctx, x.st, "sublookup", key.src), "segment", p)
                                   IN Pop(ctx, Pop(ctx, Nf(Ev(ctx, s1, "nf", p)))))
     ELSE Dig(ctx, x.st, x.v, key)

(***************************************************************************)
(* The lookup API                                                          *)
(***************************************************************************)
Instance(t, v) == CASE t \in {"", "any"} -> TRUE
                    [] t = "string" -> IsStr(v) [] t = "int" -> IsInt(v) \/ IsBig(v) [] t = "float" -> IsFlt(v) [] t = "bool" -> IsBool(v)
                    [] OTHER -> FALSE
EnsureType(t, x) == IF x.r # "ok" \/ Instance(t, x.v) THEN x ELSE ConvertTo(t, <<>>, x.v, x.st)
InMap(names, m, st) ==
  LET hit == {j \in 1..Len(names) : IsMap(m) /\ SHas(m, names[j])}
  IN IF hit = {} THEN Nf(st) ELSE Ok(SGet(m, names[CHOOSE j \in hit : \A k \in hit : j <= k]), st)

RECURSIVE EachName(_, _, _, _)
EachName(ctx, st, names, opts) ==
  IF Len(names) = 0 THEN Nf(st)
  ELSE LET x == LookupSrc(ctx, st, names[1], opts) IN
       IF x.r = "nf" THEN EachName(ctx, x.st, Tail(names), opts) ELSE x

\* df is a default function: No or the value it produces; its calls are recorded
Lookup2(ctx, st, names, type, dflt, over, defs, opts, df) ==
  LET o == InMap(names, over, st)
      l == EachName(ctx, st, names, opts)
      d == InMap(names, defs, l.st)
  IN EnsureType(type,
       IF o.r = "ok" THEN o
       ELSE IF l.r # "nf" THEN l
       ELSE IF d.r = "ok" THEN d
       ELSE IF Given1(dflt) THEN Ok(dflt, l.st)
       ELSE IF Given1(df) THEN Ok(df, [l.st EXCEPT !.calls = Append(@, [f |-> "default", k |-> "", o |-> EmptyMap])])
       ELSE Nf(l.st))

RECURSIVE LookupAll(_, _, _, _, _, _, _, _)
\* types: No or a map from name to type name
LookupAll(ctx, st, names, types, over, defs, opts, acc) ==
  IF Len(names) = 0 THEN Ok(acc, st)
  ELSE LET nm == names[1]
           o == InMap(<<nm>>, over, st)
           l == IF o.r = "ok" THEN o ELSE LookupSrc(ctx, st, nm, opts)
           d == IF l.r = "nf" THEN InMap(<<nm>>, defs, l.st) ELSE l
           t == IF ~Given1(types) THEN d
                ELSE IF d.r # "ok" THEN d
                ELSE IF ~SHas(types, nm) THEN Er(d.st)
                ELSE EnsureType(SGet(types, nm).s, d)
       IN IF t.r = "err" THEN t
          ELSE LookupAll(ctx, t.st, Tail(names), types, over, defs, opts,
                         IF t.r = "ok" THEN MPut(acc, Str(nm), t.v) ELSE acc)
=============================================================================
