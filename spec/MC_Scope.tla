------------------------------ MODULE MC_Scope ------------------------------
(***************************************************************************)
(* P11: every combination of variables in the scope of the session and of  *)
(* an invocation, another invocation with variables of its own, changes of *)
(* the caller's map, and variables that are bound for a while; observed    *)
(* through data, settings, options, the scope function and mapped paths.   *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Broken   \* the values of w.broken: {FALSE} or BOOLEAN
None == [none |-> 1]
\* what v and w may be
VVals == <<None, Str("sv"), Mp(<< <<"x", Str("sx")>>, <<"l", Strs(<<"e0", "e1">>)>> >>), Str("<%{w}>"), Null, Strs(<<"x", "y">>)>>
WVals == <<None, Str("sw")>>
Ren(val, pre) == \* the same shape with texts of its own
  IF IsStr(val) /\ ~Contains(val.s, "%{") THEN Str(pre \o val.s)
  ELSE IF IsMap(val) THEN Mp(<< <<"x", Str(pre \o "sx")>>, <<"l", Strs(<<pre \o "e0", pre \o "e1">>)>> >>)
  ELSE val
Pair(k, val, pre) == IF val = None THEN <<>> ELSE << <<k, Ren(val, pre)>> >>
MkScope(v, x, pre) == Mp(Pair("v", VVals[v], pre) \o Pair("w", WVals[x], pre))
Js == <<EmptyMap, Mp(<< <<"v", Str("jv")>>, <<"t", Str("jt")>> >>), Mp(<< <<"w", Str("jw")>>, <<"t", IntV(7)>> >>)>>
Entry(n, ps) == Mp(<< <<"name", Str(n)>> >> \o ps)
CfgOf(broken) ==
  CfgFile(<<Entry("byvar", << <<"path", Str("f-%{v}.yaml")>> >>),
            Entry("common", << <<"path", Str("common.yaml")>> >>),
            Entry("fn", << <<"lookup_key", Str("fn")>>, <<"options", Mp(<< <<"o", Str("%{v}|%{w}|%{t}")>>, <<"nested", Arr(<<Str("%{v.x}")>>)>> >>)>> >>),
            Entry("mapped", << <<"mapped_paths", Strs(<<"v", "t", IF broken THEN "m-%{t}-%{a..b}.yaml" ELSE "m-%{t}-%{w}.yaml">>)>> >>),
            Entry("mappedw", << <<"mapped_paths", Strs(<<"v.l", "w", "n-%{w}.yaml">>)>> >>),
            Entry("sc", << <<"lookup_key", Str("scope")>> >>)>>)
FileNames == <<"f-sv", "f-isv", "f-jv", "f-", "m-sv-", "m-isv-", "m-sv-sw", "m-isv-sw", "m-sv-isw", "m-isv-isw", "m-x-", "m-y-sw", "m-x-isw", "m-jv-", "m-jv-sw", "m-sv-jw",
               "n-e0", "n-ie1", "n-sw", "n-">>
Data(n) == Doc(Mp(<< <<"which", Str(n)>>, <<"all", Arr(<<Str(n)>>)>>, <<"inmapped", Str(n \o " t=%{t} w=%{w}")>> >>))
Common == Doc(Mp(<< <<"p", Str("<%{v}>")>>, <<"q", Str("<%{v.x}>")>>, <<"r", Str("<%{v.l.1}>")>>, <<"s", Str("<%{scope('v')}>")>>, <<"t1", Str("[%{t}]")>>,
                    <<"w1", Str("<%{w}>")>>, <<"u", Arr(<<Mp(<< <<"%{w}", Str("%{ v }%{w}")>> >>)>>)>> >>))
World(x) ==
  [x |-> x, env |-> EmptyFn, fns |-> [n \in {"fn"} |-> Fn("lookup_key", "opt", "o", EmptyMap)],
   files |-> <<CfgOf(x.b), F("data/common.yaml", Common)>> \o [j \in 1..Len(FileNames) |-> F("data/" \o FileNames[j] \o ".yaml", Data(FileNames[j]))]]
SScope(x) == MkScope(x.sv, x.sw, "")
IScope(x) == MkScope(x.iv, x.iw, "i")
UniqL(i, k) == [op |-> "lookup", i |-> i, key |-> k, opts |-> Mp(<< <<"merge", Str("unique")>> >>)]
L1(i, k) == [op |-> "lookup", i |-> i, key |-> k]
Terp(i, t) == [op |-> "interp", i |-> i, v |-> Str(t)]
Bind(i, m, t) == [op |-> "interp", i |-> i, v |-> Str(t), bind |-> m]
Gauge(i) == Terp(i, "%{v}/%{v.x}/%{w}/%{t}")
PlanA(i) == <<Gauge(i), L1(i, "p"), L1(i, "q"), L1(i, "r"), L1(i, "s"), L1(i, "t1"), L1(i, "w1"), L1(i, "u"), L1(i, "zz"), UniqL(i, "all"), L1(i, "inmapped"),
              L1(i, "v"), L1(i, "w.x"), Gauge(i)>>
InvW(i, sc) == IF sc = EmptyMap THEN [op |-> "inv", i |-> i, s |-> "s"] ELSE [op |-> "inv", i |-> i, s |-> "s", scope |-> sc]
Plan(x) ==
  \* the map is given as a native map of the language, or as one of the library
  <<IF x.j = 2 /\ x.sv # 3 THEN [op |-> "session", s |-> "s", root |-> "/R", scope |-> SScope(x), via |-> "go"]
    ELSE [op |-> "session", s |-> "s", root |-> "/R", scope |-> SScope(x)], InvW("i", IScope(x)), InvW("j", Js[x.j])>>
  \o PlanA("i")
  \o <<[op |-> "mutscope", s |-> "s", m |-> Mp(<< <<"v", Str("changed")>>, <<"w", Str("changed")>>, <<"t", Str("changed")>> >>)]>>
  \o PlanA("j")
  \o <<InvW("m", EmptyMap), Gauge("m"), L1("m", "p"), L1("m", "t1"),
       Bind("i", Mp(<< <<"v", Str("bound")>> >>), "%{v}|%{w}"), Bind("i", Mp(<< <<"t", Str("bound")>> >>), "%{t}%{nosuch('a')}"), Gauge("i"), Gauge("j"), L1("i", "p"), L1("i", "t1")>>
Init == \E sv \in 1..6, sw \in 1..2, iv \in 1..6, iw \in 1..2, j \in 1..3, b \in Broken :
          MCInit(World([sv |-> sv, sw |-> sw, iv |-> iv, iw |-> iw, j |-> j, b |-> b]))
Next == Follow(Plan(w.x), "")
MCView == <<w.x, Len(hist)>>

(***************************************************************************)
(* What each invocation must see                                           *)
(***************************************************************************)
Scopes(i) == IF i = "i" THEN <<IScope(w.x), SScope(w.x)>> ELSE IF i = "j" THEN <<Js[w.x.j], SScope(w.x)>> ELSE <<SScope(w.x)>>
Var(i, n) == LET sc == Scopes(i) IN IF SHas(sc[1], n) THEN SGet(sc[1], n) ELSE IF Len(sc) > 1 /\ SHas(sc[2], n) THEN SGet(sc[2], n) ELSE None
WText(i) == LET x == Var(i, "w") IN IF x = None THEN "" ELSE x.s
TText(i) == LET x == Var(i, "t") IN IF x = None THEN "" ELSE Render(x)
VVal(i) == LET x == Var(i, "v") IN IF IsStr(x) /\ x.s = "<%{w}>" THEN Str("<" \o WText(i) \o ">") ELSE x
VText(i) == IF VVal(i) = None THEN "" ELSE Render(VVal(i))
VX(i) == IF IsMap(VVal(i)) THEN SGet(VVal(i), "x").s ELSE ""
VL1(i) == IF IsMap(VVal(i)) THEN SGet(VVal(i), "l").a[2].s ELSE ""
GaugeText(i) == VText(i) \o "/" \o VX(i) \o "/" \o WText(i) \o "/" \o TText(i)
Is(t) == out.r = "ok" /\ out.v = Str(t)
HasFile(n) == \E j \in 1..Len(FileNames) : FileNames[j] = n
Mapped(i) == \* the files of the two mapped levels, in order
  LET vs == IF IsStr(VVal(i)) THEN <<VVal(i).s>> ELSE IF IsArr(VVal(i)) THEN [j \in 1..Len(VVal(i).a) |-> VVal(i).a[j].s] ELSE <<>>
      ls == IF IsMap(VVal(i)) THEN LET l == SGet(VVal(i), "l").a IN [j \in 1..Len(l) |-> l[j].s] ELSE <<>>
      all == [j \in 1..Len(vs) |-> "m-" \o vs[j] \o "-" \o WText(i)] \o [j \in 1..Len(ls) |-> "n-" \o ls[j]]
  IN SelectSeq(all, HasFile)
ByVar(i) == LET n == "f-" \o VText(i) IN IF HasFile(n) THEN <<n>> ELSE <<>>
Seen(i) == ByVar(i) \o Mapped(i)
Sees ==
  (Len(hist) > 3 /\ LastOp.op \in {"lookup", "interp"}) =>
    LET i == LastOp.i IN
    IF LastOp.op = "interp"
    THEN IF "bind" \in DOMAIN LastOp THEN (IF SHas(LastOp.bind, "v") THEN Is("bound|") ELSE out.r = "err")
         ELSE Is(GaugeText(i))
    ELSE IF w.x.b THEN (IF IsStr(VVal(i)) \/ IsArr(VVal(i)) THEN out.r = "err" ELSE out.r # "err")
    ELSE LET k == LastOp.key IN
      CASE k \in {"p", "s"} -> Is("<" \o VText(i) \o ">") [] k = "q" -> Is("<" \o VX(i) \o ">") [] k = "r" -> Is("<" \o VL1(i) \o ">")
        [] k = "t1" -> Is("[" \o TText(i) \o "]") [] k = "w1" -> Is("<" \o WText(i) \o ">")
        [] k = "u" -> out.r = "ok" /\ out.v = Arr(<<Mp(<< <<WText(i), Str(VText(i) \o WText(i))>> >>)>>)
        \* the option as it was resolved with the variables of the invocation
        [] k = "zz" -> Is(VText(i) \o "|" \o WText(i) \o "|" \o TText(i))
        [] k = "all" -> out.r = "ok" /\ out.v = Strs(ByVar(i) \o <<VText(i) \o "|" \o WText(i) \o "|" \o TText(i)>> \o Mapped(i))
        [] k = "inmapped" -> Is(IF Len(ByVar(i)) > 0 THEN ByVar(i)[1] \o " t=" \o TText(i) \o " w=" \o WText(i)
                                ELSE VText(i) \o "|" \o WText(i) \o "|" \o TText(i))
        [] OTHER -> TRUE
=============================================================================
