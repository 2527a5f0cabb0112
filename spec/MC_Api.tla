------------------------------- MODULE MC_Api -------------------------------
(***************************************************************************)
(* P16: every combination of what the arguments of a lookup may be.  The   *)
(* candidates for the result are listed in order of preference; the first  *)
(* of them that is present decides.                                        *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
Name == <<"name", Str("common")>>
CT(a) == Mp(<< <<"convert_to", Arr(a)>> >>)
Files0 == <<CfgFile(<<Mp(<<Name, <<"path", Str("c.yaml")>> >>)>>),
  F("data/c.yaml", Doc(Mp(<< <<"f1", Str("1")>>, <<"f2", IntV(2)>>, <<"fx", Str("x")>>, <<"ft", Bool(TRUE)>>, <<"fn", Null>>, <<"fe", Str("")>>,
    <<"fm", Mp(<< <<"a", Str("7")>> >>)>>, <<"cyc", Str("%{lookup('cyc')}")>>,
    <<"ci", Str("31")>>, <<"ch", Str("ff")>>, <<"cs", IntV(5)>>, <<"cb", Str("zz")>>, <<"cz", Str("secret")>>, <<"cf", Arr(<<>>)>>,
    <<"cp", IntV(37)>>, <<"cq", Str("x")>>, <<"cx", IntV(37)>>, <<"e1", Str("x")>>, <<"e2", Str("11")>>, <<"e3", Str("yes")>>, <<"e4", IntV(1)>>, <<"bin", Str("-101")>>,
    <<"lookup_options", Mp(<< <<"ci", Mp(<< <<"convert_to", Str("int")>> >>)>>, <<"ch", Mp(<< <<"convert_to", Arr(<<Str("int"), IntV(16)>>)>> >>)>>,
       <<"cs", Mp(<< <<"convert_to", Arr(<<Str("string")>>)>> >>)>>, <<"cb", Mp(<< <<"convert_to", Str("int")>> >>)>>,
       <<"cz", Mp(<< <<"convert_to", Str("sensitive")>> >>)>>, <<"cf", Mp(<< <<"convert_to", Str("float")>> >>)>>,
       <<"cn", Mp(<< <<"convert_to", Str("int")>> >>)>>, <<"cp", CT(<<Str("string"), Str("%04d")>>)>>, <<"cq", CT(<<Str("string"), Str("%-4s")>>)>>,
       <<"cx", CT(<<Str("string"), Str("%x")>>)>>, <<"e1", CT(<<Str("string"), Str("bad")>>)>>, <<"e2", CT(<<Str("int"), IntV(7)>>)>>, <<"e3", CT(<<Str("bool"), Bool(TRUE)>>)>>,
       <<"e4", CT(<<Str("sensitive"), IntV(1)>>)>>, <<"bin", CT(<<Str("int"), IntV(2)>>)>> >>)>> >>)))>>
\* what the data yield for a key
DataOf(k) ==
  CASE k = "f1" -> Str("1") [] k = "f2" -> IntV(2) [] k = "fx" -> Str("x") [] k = "ft" -> Bool(TRUE) [] k = "fn" -> Null [] k = "fe" -> Str("")
    [] k = "fm" -> Mp(<< <<"a", Str("7")>> >>) [] k = "fm.a" -> Str("7") [] k = "ci" -> IntV(31) [] k = "ch" -> IntV(255) [] k = "cs" -> Str("5")
    [] k = "cz" -> Sens(Str("secret")) [] k = "cp" -> Str("0037") [] k = "cq" -> Str("x   ") [] k = "cx" -> Str("25") [] k = "bin" -> IntV(-5)
    [] OTHER -> No
Fails == {"e1", "e2", "e3", "e4", "cyc", "cb", "cf", "", "a..b"}
\* n1, n2 and cn are never found
NameLists == <<<<"n1">>, <<"f1">>, <<"n1", "f2">>, <<"f2", "f1">>, <<"cyc", "f1">>, <<"f1", "cyc">>, <<"n1", "cyc">>, <<"ci">>, <<"cn", "ch">>, <<"cb">>, <<"cn">>,
               <<"fn", "f1">>, <<"fe", "f1">>, <<"n1", "fm.a">>, <<"fm.b", "ft">>, <<"n1", "n2", "fx">>, <<>>, <<"n1", "a..b">>, <<"cs", "ci">>, <<"cz">>, <<"cf">>, <<"fm">>, <<"cp">>, <<"cn", "cq">>, <<"cx">>, <<"bin">>, <<"e1">>, <<"e2">>, <<"e3">>, <<"n1", "e4">> >>
Overs == <<No, EmptyMap, Mp(<< <<"n1", Str("over n1")>>, <<"f2", IntV(9)>> >>), Mp(<< <<"cyc", Str("3")>>, <<"f1", Null>>, <<"fm.a", Bool(FALSE)>> >>)>>
Defss == <<No, EmptyMap, Mp(<< <<"n2", Str("dflt n2")>>, <<"n1", Str("12")>>, <<"f1", Str("dflt f1")>> >>), Mp(<< <<"cn", Str("44")>>, <<"fm.b", Null>>, <<"a..b", IntV(1)>> >>)>>
Dflts == <<No, Str("6"), IntV(0), Null>>
Dfs == <<No, Str("8"), Str("dfx")>>
Types == <<"", "any", "string", "int", "bool", "float">>
World == [files |-> Files0, env |-> EmptyFn, fns |-> EmptyFn]
VARIABLE plan
Op2(n, o, d, v, f, t) ==
  [op |-> "lookup2", i |-> "i", names |-> n] @@ (IF o = No THEN EmptyFn ELSE [over |-> o]) @@ (IF d = No THEN EmptyFn ELSE [defs |-> d])
  @@ (IF v = No THEN EmptyFn ELSE [dflt |-> v]) @@ (IF f = No THEN EmptyFn ELSE [df |-> f]) @@ (IF t = "" THEN EmptyFn ELSE [type |-> t])
Ops2(n, t) == {Op2(NameLists[n], Overs[o], Defss[d], Dflts[v], Dfs[f], Types[t]) : o \in 1..4, d \in 1..4, v \in 1..4, f \in 1..3}
\* all keys lookups: with types for all keys, for some and without
AllLists == <<<<"n1", "f1", "f2">>, <<"f2">>, <<>>, <<"ci", "cn", "n2", "f1">>, <<"n1", "cyc">>, <<"fm.a", "fm.b", "f1">>, <<"f1", "f1">>, <<"cb", "f1">> >>
TypeMaps == <<No, Mp(<< <<"n1", Str("string")>>, <<"f1", Str("int")>>, <<"f2", Str("string")>>, <<"ci", Str("int")>>, <<"cn", Str("int")>>, <<"n2", Str("any")>>,
                        <<"cyc", Str("int")>>, <<"cb", Str("int")>> >>), Mp(<< <<"f2", Str("int")>>, <<"cyc", Str("int")>> >>)>>
OpAll(n, o, d, t) ==
  [op |-> "lookupall", i |-> "i", names |-> n] @@ (IF o = No THEN EmptyFn ELSE [over |-> o]) @@ (IF d = No THEN EmptyFn ELSE [defs |-> d])
  @@ (IF t = No THEN EmptyFn ELSE [types |-> t])
OpsAll(n) == {OpAll(AllLists[n], Overs[o], Defss[d], TypeMaps[t]) : o \in 1..4, d \in 1..4, t \in 1..3}
Plans == {[a |-> n, b |-> t] : n \in 1..Len(NameLists), t \in IF Rich THEN 1..6 ELSE {1, 3, 4}} \cup {[a |-> n, b |-> 0] : n \in 1..Len(AllLists)}
PlanOps(p) == <<NSession, NInv>> \o SeqOf(IF p.b = 0 THEN OpsAll(p.a) ELSE Ops2(p.a, p.b))
Init == MCInit(World) /\ \E p \in Plans : plan = [p |-> p, ops |-> PlanOps(p)]
Next == Follow(plan.ops, "c") /\ plan' = plan
MCView == <<plan.p, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
F1(op, f) == IF f \in DOMAIN op THEN op[f] ELSE No
\* candidates: <<presence, value>>, "e" an error
MapCands(names, m) == [j \in 1..Len(names) |-> IF m # No /\ SHas(m, names[j]) THEN <<"y", SGet(m, names[j])>> ELSE <<"n", Null>>]
DataCands(names) == [j \in 1..Len(names) |-> IF names[j] \in Fails THEN <<"e", Null>> ELSE IF DataOf(names[j]) = No THEN <<"n", Null>> ELSE <<"y", DataOf(names[j])>>]
One(v) == <<IF v = No THEN <<"n", Null>> ELSE <<"y", v>> >>
FirstCand(cs) == LET h == {j \in 1..Len(cs) : cs[j][1] # "n"} IN IF h = {} THEN 0 ELSE CHOOSE j \in h : \A k \in h : j <= k
\* conversions of the values that occur: value, type, result (No: it can't be converted)
Typed(t, v) ==
  CASE t \in {"", "any"} -> v
    [] t = "string" -> IF IsStr(v) THEN v ELSE IF IsInt(v) THEN Str(ToString(v.i)) ELSE IF IsBool(v) THEN Str(IF v.b THEN "true" ELSE "false")
                       ELSE IF v = Null THEN Str("null") ELSE IF IsSens(v) THEN Str("sensitive [value redacted]") ELSE Str("{\"a\":\"7\"}")
    [] t = "int" -> CASE IsInt(v) -> v [] v = Bool(TRUE) -> IntV(1) [] v = Bool(FALSE) -> IntV(0) [] v = Str("1") -> IntV(1) [] v = Str("3") -> IntV(3)
                      [] v = Str("6") -> IntV(6) [] v = Str("8") -> IntV(8) [] v = Str("7") -> IntV(7) [] v = Str("12") -> IntV(12) [] v = Str("44") -> IntV(44)
                      [] v = Str("5") -> IntV(5) [] v = Str("0037") -> IntV(37) [] v = Str("25") -> IntV(25) [] OTHER -> No
    [] OTHER -> [other |-> 1]
CallsOf(op, n) == \* the default function is called only if it is reached
  IF n > 0 /\ n = 3 * Len(op.names) + 2 THEN 1 ELSE 0
Cands(op) == MapCands(op.names, F1(op, "over")) \o DataCands(op.names) \o MapCands(op.names, F1(op, "defs")) \o One(F1(op, "dflt")) \o One(F1(op, "df"))
Preference ==
  LastIs("lookup2") =>
    LET cs == Cands(LastOp)
        n == FirstCand(cs)
        t == IF "type" \in DOMAIN LastOp THEN LastOp.type ELSE ""
        x == Typed(t, cs[n][2])
    IN /\ Len(out.calls) = CallsOf(LastOp, n)
       /\ IF n = 0 THEN out.r = "nf"
          ELSE IF cs[n][1] = "e" THEN out.r = "err"
          ELSE IF x = [other |-> 1] THEN out.r # "nf"
          ELSE IF x = No THEN out.r = "err"
          ELSE out.r = "ok" /\ out.v = x
AllCand(op, nm) == LET cs == MapCands(<<nm>>, F1(op, "over")) \o DataCands(<<nm>>) \o MapCands(<<nm>>, F1(op, "defs"))
                       n == FirstCand(cs) IN IF n = 0 THEN <<"n", Null>> ELSE cs[n]
TypeFor(op, nm) == IF "types" \notin DOMAIN op THEN "" ELSE IF SHas(op.types, nm) THEN SGet(op.types, nm).s ELSE "missing"
AllPreference ==
  LastIs("lookupall") =>
    LET ns == LastOp.names
        bad == \E j \in 1..Len(ns) : LET c == AllCand(LastOp, ns[j])
                                         t == TypeFor(LastOp, ns[j])
                                     IN c[1] = "e" \/ (c[1] = "y" /\ (t = "missing" \/ Typed(t, c[2]) = No))
        keys == {ns[j] : j \in 1..Len(ns)}
        there == {k \in keys : AllCand(LastOp, k)[1] = "y"}
    IN IF bad THEN out.r = "err"
       ELSE /\ out.r = "ok"
            /\ Len(out.v.m) = Cardinality(there)
            /\ \A k \in there : SHas(out.v, k) /\ SGet(out.v, k) = Typed(TypeFor(LastOp, k), AllCand(LastOp, k)[2])
=============================================================================
