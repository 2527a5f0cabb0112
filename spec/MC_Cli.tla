------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* P20: command lines in one world of files.  Each group enumerates the    *)
(* combinations of some of the arguments; a scenario runs the commands of  *)
(* a group, each of which is a process of its own.                         *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
VARIABLE c

\* all values that can be rendered in more than one way
Vals == [str |-> Str("text"), esc |-> Str("% {x} 'q' \"d\" # : \\ é"), lines |-> Str("a\nb\n"), emp |-> Str(""), num |-> IntV(42), neg |-> IntV(-7), flt |-> [f |-> "1.5"], whole |-> [f |-> "3.0"],
         yes |-> Bool(TRUE), no |-> Bool(FALSE), nul |-> Null, numstr |-> Str("12"), boolstr |-> Str("true"), nulstr |-> Str("null"), arr |-> Arr(<<Str("a"), IntV(1), Null>>), earr |-> Arr(<<>>), emap |-> EmptyMap,
         map |-> Mp(<< <<"z", IntV(1)>>, <<"a", Arr(<<Mp(<< <<"b", Bool(FALSE)>> >>)>>)>>, <<"", Str("")>> >>), sec |-> Str("secret"), bytes |-> Strs(<<>>), b64 |-> Str("AQID"), ints |-> Arr(<<IntV(0), IntV(10), IntV(255)>>), over |-> Arr(<<IntV(256)>>)]
Cfg == CfgFile(<<Mp(<< <<"name", Str("h")>>, <<"path", Str("h.yaml")>> >>), Mp(<< <<"name", Str("l")>>, <<"path", Str("l.yaml")>> >>)>>)
Other == F("other.yaml", Cfg5(<<Mp(<< <<"name", Str("l")>>, <<"path", Str("l.yaml")>> >>)>>))
ValPairs == LET ks == SeqOf(DOMAIN Vals) IN [j \in 1..Len(ks) |-> <<ks[j], Vals[ks[j]]>>]
High == Mp(ValPairs \o << <<"k", Str("%{a}|%{b}|%{facts.a}|%{facts.b}")>>, <<"m", Mp(<< <<"x1", IntV(1)>>, <<"y", Str("h")>> >>)>>, <<"u", Strs(<<"h", "both">>)>>, <<"bad", Str("%{nope('a')}")>>,
          <<"lookup_options", Mp(<< <<"sec", Mp(<< <<"convert_to", Str("Sensitive")>> >>)>>, <<"secd", Mp(<< <<"convert_to", Str("sensitive")>> >>)>> >>)>>, <<"secd", Str("secret")>> >>)
Low == Mp(<< <<"m", Mp(<< <<"x2", IntV(2)>>, <<"y", Str("l")>> >>)>>, <<"u", Strs(<<"l", "both">>)>>, <<"low", Str("l")>> >>)
V1 == Mp(<< <<"a", Str("v1")>>, <<"b", Str("v1")>> >>)
V2 == Mp(<< <<"b", Str("v2")>> >>)
F1 == Mp(<< <<"a", Str("f1")>> >>)
F2 == Mp(<< <<"a", Str("f2")>>, <<"b", Str("f2")>>, <<"facts", Str("hidden")>> >>)
Std == Mp(<< <<"b", Str("std")>> >>)
World == [files |-> <<Cfg, Other, F("data/h.yaml", Doc(High)), F("data/l.yaml", Doc(Low)), F("v1.yaml", Doc(V1)), F("v2.yaml", Doc(V2)), F("f1.yaml", Doc(F1)), F("f2.yaml", Doc(F2)),
                      F("list.yaml", Doc(Strs(<<"a">>))), F("broken.yaml", [bad |-> "a: b: c"])>>,
          env |-> [HOST |-> "host"], fns |-> EmptyFn]

Members(sq) == {sq[j] : j \in 1..Len(sq)}
C(names, more) == [op |-> "cli", names |-> names] @@ more
Given0(n, v) == IF Len(v) = 0 THEN EmptyFn ELSE (n :> v)

(***************************************************************************)
(* The groups                                                              *)
(***************************************************************************)
\* variables, their files and facts
VF == {<<>>, <<"/R/v1.yaml">>, <<"/R/v1.yaml", "/R/v2.yaml">>, <<"/R/v2.yaml", "/R/v1.yaml">>, <<"-">>, <<"/R/v1.yaml", "-">>} \cup (IF Rich THEN {<<"-", "/R/v1.yaml">>, <<"/R/f2.yaml">>, <<"-", "-">>} ELSE {})
FF == {<<>>, <<"/R/f1.yaml">>, <<"/R/f1.yaml", "/R/f2.yaml">>, <<"/R/f2.yaml", "/R/f1.yaml">>, <<"-">>} \cup (IF Rich THEN {<<"/R/f1.yaml", "-">>, <<"/R/v1.yaml">>} ELSE {})
Vs == {<<>>, <<"a=1", "b:2">>, <<"a=1", "a=3">>, <<"facts={\"a\" => 9}">>}
CLits == <<[t |-> "{\"a\" => 9}", v |-> Mp(<< <<"a", IntV(9)>> >>)]>>
ScopeOps == {C(<<"k">>, Given0("vars", v) @@ Given0("varfiles", f) @@ Given0("factfiles", x) @@ Given0("lits", IF v = <<"facts={\"a\" => 9}">> THEN CLits ELSE <<>>) @@ (IF "-" \in Members(f) \cup Members(x) THEN [stdin |-> Doc(Std)] ELSE EmptyFn)) :
               v \in Vs, f \in VF, x \in FF}
\* files that can't be used
WrongFiles == {"/R/list.yaml", "/R/broken.yaml", "/R/lost.yaml"}
WrongOps == {C(<<k>>, (n :> fs)) : k \in {"k", "none"}, n \in {"varfiles", "factfiles"}, fs \in {<<p>> : p \in WrongFiles} \cup {<<"/R/v1.yaml", p>> : p \in WrongFiles} \cup {<<p, "/R/v1.yaml">> : p \in WrongFiles}}
\* values as they are printed
Renders == {"", "yaml", "json", "s", "binary", "text", "JSON"}
Dialects == {"", "dgo"}
RenderOps == {C(<<k>>, (IF r = "" THEN EmptyFn ELSE [render |-> r]) @@ (IF d = "" THEN EmptyFn ELSE [dialect |-> d])) :
                k \in DOMAIN Vals \cup {"m", "none", "secd"}, r \in Renders, d \in (IF Rich THEN Dialects ELSE {""})}
             \cup {C(<<k>>, [render |-> r, dialect |-> "dgo"]) : k \in {"sec", "secd", "arr", "map"}, r \in Renders \ {""}}
\* keys, merges, types and defaults
NameLists == {<<"m">>, <<"u">>, <<"none">>, <<"none", "m">>, <<"u", "m">>, <<"bad">>, <<"bad", "m">>, <<"m", "bad">>, <<"none", "bad">>, <<"numstr">>, <<"env::HOST">>, <<"nul", "m">>, <<"no", "m">>, <<"emp", "m">>, <<"low", "none", "u">>, <<"m.y">>, <<"lookup_options">>}
Merges == {"", "first", "unique", "hash", "deep", "wrong"}
DText == {<<>>, <<"">>, <<"dflt">>, <<"5">>, <<"[1, 'b']">>, <<"[">>}
DLits == <<[t |-> "[1, 'b']", v |-> Arr(<<IntV(1), Str("b")>>)]>>
LookupOps == {C(ns, (IF g = "" THEN EmptyFn ELSE [merge |-> g]) @@ (IF d = <<>> THEN EmptyFn ELSE [dtext |-> d[1], lits |-> DLits]) @@ (IF al THEN [all |-> TRUE] ELSE EmptyFn)) :
                ns \in NameLists, g \in IF Rich THEN Merges ELSE {"", "unique", "deep", "wrong"}, d \in IF Rich THEN DText ELSE {<<>>, <<"dflt">>}, al \in BOOLEAN}
             \cup {C(ns, [dtext |-> d, lits |-> DLits]) : ns \in {<<"none">>, <<"m">>, <<"nul">>}, d \in {"", "5", "[1, 'b']", "["}}
Types == {"Integer", "String", "Sensitive", "Any", "Float", "Boolean", "[", "{{{"}
TypeOps == {C(ns, [type |-> t] @@ (IF d = <<>> THEN EmptyFn ELSE [dtext |-> d[1], lits |-> DLits]) @@ (IF al THEN [all |-> TRUE] ELSE EmptyFn)) :
              ns \in {<<"numstr">>, <<"none">>, <<"none", "numstr">>, <<"num">>, <<"str">>, <<"nul">>}, t \in Types, d \in {<<>>, <<"5">>, <<"x">>}, al \in BOOLEAN}
Shapes == <<[t |-> "Struct[{'numstr' => Integer, 'num' => String}]", m |-> Mp(<< <<"numstr", Str("int")>>, <<"num", Str("string")>> >>)]>>
ShapeOps == {C(ns, [type |-> Shapes[1].t, shapes |-> Shapes, all |-> TRUE]) : ns \in {<<"numstr", "num">>, <<"num">>, <<"numstr", "str", "none">>, <<"str">>}}
\* explanations
ExplainOps == {C(ns, [explain |-> e] @@ (IF r = "" THEN EmptyFn ELSE [render |-> r]) @@ (IF g = "" THEN EmptyFn ELSE [merge |-> g])) :
                 ns \in {<<"m">>, <<"none">>, <<"bad">>, <<"none", "u">>, <<"sec">>}, e \in {"d", "do", "o"}, r \in {"", "s", "yaml", "json", "binary"}, g \in {"", "deep"}}
\* name and value
VText == {"a=1", "a:1", "a= 1 ", " a =1", "a=x=y", "a=x:y", "a:x=y", "a=x==y", "a==1", "a:=1", "a::b=1", "a::b:1", "a", "", "=", "=1", ":1", "a=", "a:", "a= ", "a=\"1\"", "a='1'", "a=\"1", "a=[1]", "a=[", "a={'x' => 1}", "a=1\n", "x=1\na=2", "a=1\n2", "a=b::c", "a=::c", "a=b=", "a.b=1"}
TLits == <<[t |-> "\"1\"", v |-> Str("1")], [t |-> "'1'", v |-> Str("1")], [t |-> "[1]", v |-> Arr(<<IntV(1)>>)], [t |-> "{'x' => 1}", v |-> Mp(<< <<"x", IntV(1)>> >>)]>>
TextOps == {C(<<"k">>, [vars |-> <<t>>, lits |-> TLits]) : t \in VText} \cup {C(<<"none">>, [vars |-> <<t, "b=2">>, lits |-> TLits]) : t \in VText}
\* where the configuration is
CfgOps == {C(<<k>>, (IF p = "" THEN EmptyFn ELSE [cfg |-> p]) @@ (IF f THEN [first |-> TRUE] ELSE EmptyFn) @@ (IF e THEN [eq |-> TRUE] ELSE EmptyFn)) :
             k \in {"low", "m", "str", "none"}, p \in {"", "/R/hiera.yaml", "/R/other.yaml", "/R/list.yaml", "/R/broken.yaml", "/R/lost.yaml"}, f \in BOOLEAN, e \in BOOLEAN}

Groups == [scope |-> ScopeOps, wrong |-> WrongOps, render |-> RenderOps, lookup |-> LookupOps, type |-> TypeOps \cup ShapeOps, explain |-> ExplainOps, text |-> TextOps, cfg |-> CfgOps]
PlanF == [g \in DOMAIN Groups |-> SeqOf(Groups[g]) \o <<C(<<>>, EmptyFn)>>]
Init == c \in DOMAIN Groups /\ MCInit(World)
Next == c' = c /\ Follow(PlanF[c], "")
MCView == <<c, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
Q == LastOp
Has(f, x) == f \in DOMAIN x
Get(x, f, d) == IF f \in DOMAIN x THEN x[f] ELSE d
Prints(v) == out.r = "ok" /\ out.v = Arr(<<v>>)
Silently == out.r = "ok" /\ out.v = Arr(<<>>)
In(g) == LastIs("cli") /\ c = g /\ Len(Q.names) > 0
NoKeys == LastIs("cli") /\ Len(Q.names) = 0 => out.r = "err"

\* the last of variables, variable files and fact files counts, and facts are those of the fact files
Bound == [x \in {"/R/v1.yaml", "/R/v2.yaml", "/R/f1.yaml", "/R/f2.yaml", "-"} |->
            CASE x = "/R/v1.yaml" -> [a |-> "v1", b |-> "v1"] [] x = "/R/v2.yaml" -> [b |-> "v2"] [] x = "/R/f1.yaml" -> [a |-> "f1"]
              [] x = "/R/f2.yaml" -> [a |-> "f2", b |-> "f2"] [] OTHER -> [b |-> "std"]]
OfVar(t) == CASE t = "a=1" -> [a |-> "1"] [] t = "b:2" -> [b |-> "2"] [] t = "a=3" -> [a |-> "3"] [] OTHER -> EmptyFn
\* stdin is read once
Sources(fs, before) == [j \in 1..Len(fs) |-> IF fs[j] = "-" /\ ("-" \in Members(before) \/ \E q \in 1..(j - 1) : fs[q] = "-") THEN EmptyFn ELSE Bound[fs[j]]]
LastOf(srcs, n) == LET hits == {j \in 1..Len(srcs) : n \in DOMAIN srcs[j]} IN
                   IF hits = {} THEN "" ELSE srcs[CHOOSE j \in hits : \A q \in hits : q <= j][n]
ScopeRule ==
  In("scope") =>
    LET vs == Get(Q, "vars", <<>>)
        vf == Get(Q, "varfiles", <<>>)
        ff == Get(Q, "factfiles", <<>>)
        fs == Sources(ff, vf)
        all == [j \in 1..Len(vs) |-> OfVar(vs[j])] \o Sources(vf, <<>>) \o fs
        odd == (Len(vs) = 1 \/ "/R/f2.yaml" \in Members(vf)) /\ ff = <<>>
    IN IF odd THEN out.r \in {"ok", "err"}
       ELSE Prints(Str(LastOf(all, "a") \o "|" \o LastOf(all, "b") \o "|" \o LastOf(fs, "a") \o "|" \o LastOf(fs, "b")))
WrongRule == In("wrong") => out.r = "err"

Value(k) == CASE k = "m" -> Mp(<< <<"x1", IntV(1)>>, <<"y", Str("h")>> >>)
              [] k = "sec" -> Sens(Str("secret"))
              [] OTHER -> Vals[k]
\* with the dialect pcore Sensitive is the type and with dgo sensitive is
RenderRule ==
  In("render") =>
    LET k == Q.names[1]
        r == Get(Q, "render", "yaml")
        dgo == Has("dialect", Q)
    IN IF k = "none" THEN Silently
       ELSE IF k = (IF dgo THEN "sec" ELSE "secd") THEN out.r = "err"
       ELSE LET v == IF k = "secd" THEN Sens(Str("secret")) ELSE Value(k) IN
         CASE r = "yaml" -> Prints(v)
           [] r = "json" -> Prints(IF k = "whole" THEN IntV(3) ELSE v)
           [] r = "s" -> /\ out.r = "ok" /\ Len(out.v.a) = 1
                         /\ IsStr(v) => out.v.a[1] = v
                         /\ k \in {"sec", "secd"} => ~Contains(out.v.a[1].s, "secret")
                         /\ k \in {"num", "neg", "yes", "no"} => out.v.a[1].s = (CASE k = "num" -> "42" [] k = "neg" -> "-7" [] k = "yes" -> "true" [] OTHER -> "false")
           [] r = "binary" -> CASE k = "b64" -> Prints(Arr(<<IntV(1), IntV(2), IntV(3)>>)) [] k = "ints" -> Prints(v) [] k \in {"emp", "earr", "bytes"} -> out = [out EXCEPT !.r = "ok", !.v = Arr(<<>>)]
                                [] k = "str" -> Prints(Arr(<<IntV(181), IntV(236), IntV(109)>>)) [] k \in {"boolstr", "nulstr"} -> out.r = "ok" [] OTHER -> out.r = "err"
           [] OTHER -> out.r = "err"

Hash1 == Mp(<< <<"x1", IntV(1)>>, <<"y", Str("h")>> >>)
Hash2 == Mp(<< <<"x1", IntV(1)>>, <<"x2", IntV(2)>>, <<"y", Str("h")>> >>)
Hashes == Arr(<<Hash1, Mp(<< <<"x2", IntV(2)>>, <<"y", Str("l")>> >>)>>)
Merged2(k, g) ==
  CASE k = "m" -> CASE g \in {"", "first"} -> Hash1 [] g = "unique" -> Hashes [] OTHER -> Hash2
    [] k = "u" -> CASE g \in {"", "first"} -> Strs(<<"h", "both">>) [] g = "unique" -> Strs(<<"h", "both", "l">>) [] OTHER -> Strs(<<"h", "both", "l">>)
    [] OTHER -> No
LookupRule ==
  In("lookup") =>
    LET g == Get(Q, "merge", "")
        ns == Q.names
        first == ns[1]
        d == IF ~Has("dtext", Q) THEN No ELSE IF Q.dtext = "[1, 'b']" THEN Arr(<<IntV(1), Str("b")>>) ELSE Str(Q.dtext)
    IN /\ g = "wrong" /\ first # "lookup_options" => out.r = "err"
       /\ Has("dtext", Q) /\ Q.dtext = "[" => out.r = "err"
       /\ (g # "wrong" /\ (Has("dtext", Q) => Q.dtext # "[")) =>
            IF Has("all", Q)
            THEN /\ "bad" \in Members(ns) => out.r = "err"
                 \* precisely those that are found
                 /\ ns = <<"none">> => Prints(EmptyMap)
                 /\ ns = <<"none", "m">> => out.r = "ok" /\ VEq(out.v.a[1], Mp(<< <<"m", Merged2("m", g)>> >>))
                 /\ ns = <<"u", "m">> /\ g \in {"", "first", "unique"} => out.r = "ok" /\ VEq(out.v.a[1], Mp(<< <<"u", Merged2("u", g)>>, <<"m", Merged2("m", g)>> >>))
            ELSE /\ ns \in {<<"none">>} => IF d = No THEN Silently ELSE Prints(d)
                 /\ ns \in {<<"none", "bad">>, <<"bad">>, <<"bad", "m">>} => out.r = "err"
                 /\ ns \in {<<"m">>, <<"none", "m">>, <<"m", "bad">>} => out.r = "ok" /\ VEq(out.v.a[1], Merged2("m", g))
                 /\ ns \in {<<"u">>, <<"u", "m">>} /\ g \in {"", "first", "unique"} => Prints(Merged2("u", g))
                 /\ ns = <<"env::HOST">> /\ g \in {"", "first"} => Prints(Str("host"))
                 /\ first \in {"no", "emp"} /\ g \in {"", "first"} => Prints(Vals[first])
TypeRule ==
  In("type") =>
    LET t == Q.type
        k == Q.names[1]
        al == Has("all", Q)
    IN IF Has("shapes", Q)
       THEN CASE Q.names = <<"numstr", "num">> -> out.r = "ok" /\ VEq(out.v.a[1], Mp(<< <<"numstr", IntV(12)>>, <<"num", Str("42")>> >>))
              [] Q.names = <<"num">> -> out.r = "ok" /\ VEq(out.v.a[1], Mp(<< <<"num", Str("42")>> >>))
              [] OTHER -> TRUE
       ELSE IF t \in {"[", "{{{"} \/ al THEN out.r = "err"
       ELSE CASE k = "numstr" /\ t = "Integer" -> Prints(IntV(12))
              [] k = "num" /\ t = "String" -> Prints(Str("42"))
              [] k = "str" /\ t \in {"Integer", "Float", "Boolean"} -> out.r = "err"
              [] k = "str" /\ t \in {"String", "Any"} -> Prints(Str("text"))
              [] k = "str" /\ t = "Sensitive" -> Prints(Sens(Str("text")))
              [] Q.names = <<"none">> /\ ~Has("dtext", Q) -> Silently
              [] Q.names = <<"none">> /\ t = "Integer" -> IF Q.dtext = "5" THEN Prints(IntV(5)) ELSE out.r = "err"
              [] OTHER -> TRUE
\* an explanation rather than the value, or an error
ExplainRule ==
  In("explain") =>
    /\ Q.names = <<"bad">> => out.r = "err"
    /\ Get(Q, "render", "") = "binary" => out.r = "err"
    /\ Q.names # <<"bad">> /\ Get(Q, "render", "") \in {"", "s"} => out.r = "ok" /\ \A j \in 1..Len(Q.names) : Q.explain = "d" /\ j = 1 => Contains(out.v.a[1].s, Q.names[j])
    /\ Q.names # <<"bad">> /\ Get(Q, "render", "") \in {"yaml", "json"} => out.r = "ok" /\ IsMap(out.v.a[1])
\* the name is what precedes the first separator that is by itself
NoVars == {"a", "", "=", "=1", ":1", "a=", "a:", "a==1", "a:=1"}
One(t) ==
  CASE t \in {"a=1", "a:1", "a= 1 ", " a =1", "a=\"1\"", "a='1'"} -> "1"
    [] t \in {"a=x=y", "a:x=y"} -> "x=y" [] t = "a=x:y" -> "x:y" [] t = "a=x==y" -> "x==y" [] t = "a=b::c" -> "b::c" [] t = "a=b=" -> "b="
    [] t = "a=[1]" -> "{1}" [] t = "a= " -> ""
    [] t \in {"a::b=1", "a::b:1", "a.b=1"} -> "" 
    [] OTHER -> "?"
TextRule ==
  In("text") =>
    LET t == Q.vars[1] IN
    /\ t \in NoVars \cup {"a=\"1", "a=["} => out.r = "err"
    /\ t \notin NoVars /\ Q.names = <<"k">> /\ One(t) # "?" => Prints(Str(One(t) \o "|||"))
    /\ t \notin NoVars /\ Q.names = <<"none">> /\ One(t) # "?" => Silently
CfgRule ==
  In("cfg") =>
    LET p == Get(Q, "cfg", "")
        k == Q.names[1]
    IN CASE p \in {"", "/R/hiera.yaml"} -> CASE k = "none" -> Silently [] k = "m" -> Prints(Hash1) [] k = "low" -> Prints(Str("l")) [] OTHER -> Prints(Str("text"))
         [] p = "/R/other.yaml" -> CASE k \in {"none", "str"} -> Silently [] k = "m" -> Prints(Low.m[1][2]) [] OTHER -> Prints(Str("l"))
         [] p \in {"/R/list.yaml", "/R/broken.yaml"} -> out.r = "err"
         [] OTHER -> TRUE
=============================================================================
