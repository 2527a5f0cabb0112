------------------------------- MODULE MC_Rest -------------------------------
(***************************************************************************)
(* P17: a REST server, started in all ways, that gets all requests of a    *)
(* set, in an order of their own, with changes of the data in between.     *)
(* The scenarios are replayed on a real server, one request at a time and  *)
(* with the requests made concurrently.                                    *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
VARIABLE c

Cfg == F("hiera.yaml", Doc(Mp(<< <<"version", IntV(5)>>, <<"hierarchy", Arr(<<Mp(<< <<"name", Str("h")>>, <<"path", Str("h.yaml")>> >>), Mp(<< <<"name", Str("l")>>, <<"path", Str("l.yaml")>> >>)>>)>> >>)))
Common(n) == << <<"k", Str("%{a}|%{b}|%{d}")>>, <<"m", Mp(<< <<"x" \o n, IntV(1)>>, <<"y", Str(n)>> >>)>>, <<"u", Arr(<<Str(n)>>)>> >>
High == Mp(Common("1") \o << <<"bad", Str("%{nope('a')}")>>, <<"i", Str("12")>>, <<"f", [f |-> "1.0"]>>, <<"e", Str("")>>, <<"a/b", Str("slash")>>, <<"a//b", Str("two")>>, <<"..", Str("dots")>>,
        <<"é &?#%", Str("odd")>>, <<"sec", Str("secret")>>, <<"nul", Null>>, <<"no", Bool(FALSE)>>,
        <<"lookup_options", Mp(<< <<"sec", Mp(<< <<"convert_to", Str("sensitive")>> >>)>>, <<"u", Mp(<< <<"merge", Str("unique")>> >>)>>, <<"w", Mp(<< <<"merge", Str("wrong")>> >>)>> >>)>> >>)
Low == Mp(Common("2") \o << <<"w", IntV(1)>> >>)
\* how the server is started
Servers == [none |-> [vars |-> <<>>, varfiles |-> <<>>], one |-> [vars |-> <<"a=server">>, varfiles |-> <<>>],
            three |-> [vars |-> <<"d=0", "b=server", "d=server">>, varfiles |-> <<>>],
            five |-> [vars |-> <<"d=0", "d=1", "d=2", "d=3", "d: s">>, varfiles |-> <<>>],
            file |-> [vars |-> <<"a=server", "b=server">>, varfiles |-> <<"/R/v1.yaml", "/R/v2.yaml">>],
            lost |-> [vars |-> <<>>, varfiles |-> <<"/R/nope.yaml">>]]
V1 == Mp(<< <<"b", Str("file")>>, <<"d", Str("first")>> >>)
V2 == Mp(<< <<"d", Str("second")>> >>)

Lits == <<[t |-> "{\"q\": 1}", v |-> Mp(<< <<"q", IntV(1)>> >>)], [t |-> "{\"x\", 2}", v |-> Arr(<<Str("x"), IntV(2)>>)], [t |-> "\"7\"", v |-> Str("7")]>>
R(key, vars) == [op |-> "req", s |-> "s", key |-> key, vars |-> vars, lits |-> Lits]
VarLists == {<<>>, <<"a=1">>, <<"b=2">>, <<"a=1", "b=2">>, <<"a=1", "a:2">>, <<"b= x=y ">>, <<"b={\"q\": 1}">>}
            \cup (IF Rich THEN {<<"d=1">>, <<"b=2", "a=1", "d=3">>, <<"a='">>, <<"env::x=1">>} ELSE {})
BadVars == {<<"a">>, <<"a=1", "b=[">>, <<"a==1">>, <<"=1">>, <<"">>}
Keys2 == {"k", "m", "m.y", "u", "u.0", "bad", "i", "f", "e", "a/b", "a//b", "'..'", "é &?#%", "sec", "nul", "no", "w", "none", "lookup_options", "lookup_options.u", "", "m..y", "'k", "'k'", "env::HOST", "m.y.z"}
Reqs == {R("k", vs) : vs \in VarLists \cup BadVars} \cup {R("none", vs) : vs \in BadVars}
        \cup {R(k, <<>>) : k \in Keys2}
        \cup {R(k, <<>>) @@ [dtext |-> d] : k \in IF Rich THEN Keys2 ELSE {"none", "nul", "m.z", "bad", "lookup_options"}, d \in {"", "dflt", "5", "{\"x\", 2}", "\"7\"", "[", "'"}}
        \cup {R(k, <<>>) @@ [merge |-> g] : k \in {"m", "u", "none", "w", "e"}, g \in {"first", "unique", "hash", "deep", "wrong"}}
        \cup {R(k, <<>>) @@ [type |-> t] : k \in {"i", "k", "none", "m", "nul", "no"}, t \in {"int", "string", "any", "sensitive", "{{{"}}
        \cup {R("none", <<>>) @@ [dtext |-> d, type |-> t] : d \in {"5", "x", "\"7\""}, t \in {"int", "string"}}
        \cup {R(k, <<"a=1">>) @@ [merge |-> "unique", dtext |-> "n", type |-> "any", enc |-> "min", junk |-> <<"%zz=1", "x", "merge=first", "default=other", "vars=b:9">>] : k \in {"k", "none", "a/b", "a//b", "é &?#%"}}

World == [files |-> <<Cfg, F("data/h.yaml", Doc(High)), F("data/l.yaml", Doc(Low)), F("v1.yaml", Doc(V1)), F("v2.yaml", Doc(V2))>>,
          env |-> [HOST |-> "host"], fns |-> EmptyFn]
\* the requests in some order, or a few with changes in between
Some(x) == <<R("k", <<"a=1">>), R("none", <<>>) @@ [dtext |-> "d"], R("m", <<>>) @@ [merge |-> "deep"]>>
Changed == Mp(<< <<"k", Str("changed %{a}")>>, <<"none", Str("now")>> >>)
Cfg2 == F("hiera.yaml", Cfg5(<<Mp(<< <<"name", Str("l")>>, <<"path", Str("l.yaml")>> >>)>>))
Wr(f) == [op |-> "write", p |-> f[1], c |-> f[2]]
Changes == Some(1) \o <<Wr(Cfg2)>> \o Some(2) \o <<Wr(F("data/h.yaml", Doc(Changed)))>> \o Some(3) \o <<Wr(F("data/h.yaml", [bad |-> "a: b: c"]))>> \o Some(4)
           \o <<[op |-> "remove", p |-> "/R/data/h.yaml"]>> \o Some(5) \o <<Wr(F("v2.yaml", Doc(Mp(<< <<"a", Str("later")>> >>)))) >> \o Some(6)
Order(kind) == IF kind = "changes" THEN Changes ELSE SeqOf(Reqs)
Start(n) == [op |-> "serve", s |-> "s", cfg |-> "/R/hiera.yaml", vars |-> Servers[n].vars, varfiles |-> Servers[n].varfiles]
PlanF == [x \in [s : DOMAIN Servers, kind : {"all", "changes"}] |-> <<Start(x.s)>> \o Order(x.kind)]
Init == c \in DOMAIN PlanF /\ MCInit(World)
Next == c' = c /\ Follow(PlanF[c], "")
MCView == <<c, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
Srv == Servers[c.s]
Has(f, x) == f \in DOMAIN x
\* the variables that count, the last one first, where those of files override
GivenVars(x) == Srv.vars \o x.vars
NameIs(t, n) == HasPrefix(t, n \o "=") \/ HasPrefix(t, n \o ":")
Value(t) == Trim(From(t, 3))
VarOf(x, n) ==
  LET vs == GivenVars(x)
      hits == {j \in 1..Len(vs) : NameIs(vs[j], n)}
  IN IF Len(Srv.varfiles) > 0 /\ n # "a" THEN IF n = "b" THEN "file" ELSE "second"
     ELSE IF hits = {} THEN "" ELSE LET v == Value(vs[CHOOSE j \in hits : \A q \in hits : q <= j]) IN IF v = "{\"q\": 1}" THEN "{\"q\":1}" ELSE v
WrongVars(x) == x.vars \in BadVars \/ x.vars = <<"a='">>
\* errors of the request or the start that don't depend on what there is to find
Wrong(x) == \/ WrongVars(x) \/ c.s = "lost"
            \/ Has("type", x) /\ x.type = "{{{"
            \/ Has("dtext", x) /\ x.dtext \in {"[", "'"}
Q == LastOp
Statuses == LastIs("req") /\ Wrong(Q) => out.r = "err"
Simple(x) == ~Wrong(x) /\ c.kind = "all" /\ x.vars \in VarLists
Interpolated ==
  LastIs("req") /\ Simple(Q) /\ Q.key \in {"k", "'k'"} /\ ~Has("merge", Q) /\ (Has("type", Q) => Q.type \in {"any", "string"}) =>
     out.r = "ok" /\ out.v = Str(VarOf(Q, "a") \o "|" \o VarOf(Q, "b") \o "|" \o VarOf(Q, "d"))
Defaults ==
  LastIs("req") /\ Simple(Q) /\ Q.key = "none" =>
     IF ~Has("dtext", Q) THEN out.r = (IF Has("merge", Q) /\ Q.merge = "wrong" THEN "err" ELSE "nf")
     ELSE LET d == IF Q.dtext = "\"7\"" THEN Str("7") ELSE IF Q.dtext = "{\"x\", 2}" THEN Arr(<<Str("x"), IntV(2)>>) ELSE Str(Q.dtext)
              t == IF Has("type", Q) THEN Q.type ELSE ""
          IN IF t = "int" THEN IF d.s = "x" THEN out.r = "err" ELSE out.r = "ok" /\ out.v = IntV(IF d.s = "5" THEN 5 ELSE 7)
             ELSE out.r = "ok" /\ out.v = d
Merged ==
  LastIs("req") /\ Simple(Q) /\ Q.key = "m" /\ Has("merge", Q) =>
     CASE Q.merge = "wrong" -> out.r = "err"
       [] Q.merge = "first" -> VEq(out.v, Mp(<< <<"x1", IntV(1)>>, <<"y", Str("1")>> >>))
       [] Q.merge = "unique" -> VEq(out.v, Arr(<<Mp(<< <<"x1", IntV(1)>>, <<"y", Str("1")>> >>), Mp(<< <<"x2", IntV(1)>>, <<"y", Str("2")>> >>)>>))
       [] OTHER -> VEq(out.v, Mp(<< <<"x1", IntV(1)>>, <<"x2", IntV(1)>>, <<"y", Str("1")>> >>))
Plainly == {<<"a/b", Str("slash")>>, <<"a//b", Str("two")>>, <<"'..'", Str("dots")>>, <<"é &?#%", Str("odd")>>, <<"e", Str("")>>, <<"f", IntV(1)>>, <<"no", Bool(FALSE)>>,
            <<"u", Arr(<<Str("1"), Str("2")>>)>>, <<"sec", Sens(Str("secret"))>>, <<"env::HOST", Str("host")>>}
Values2 == LastIs("req") /\ Simple(Q) /\ DOMAIN Q = {"op", "s", "key", "vars", "lits"} =>
  /\ \A p \in Plainly : Q.key = p[1] => out.r = "ok" /\ VEq(out.v, p[2])
  /\ Q.key \in {"bad", "w", "", "m..y", "'k"} => out.r = "err"
  /\ Q.key \in {"lookup_options", "lookup_options.u", "none", "m.y.z"} => out.r \in {"nf", "err"}
\* the configuration is the first one and the data is current
Current ==
  LastIs("req") /\ c.kind = "changes" /\ c.s # "lost" =>
     LET n == Len(hist)
         phase == CASE n <= 8 -> "first" [] n <= 12 -> "changed" [] n <= 16 -> "broken" [] OTHER -> "removed"
     IN CASE Q.key = "none" -> IF phase = "broken" THEN out.r = "err" ELSE out.r = "ok" /\ out.v = Str(IF phase = "changed" THEN "now" ELSE "d")
          [] Q.key = "m" -> IF phase = "broken" THEN out.r = "err"
                            ELSE VEq(out.v, IF phase = "first" THEN Mp(<< <<"x1", IntV(1)>>, <<"x2", IntV(1)>>, <<"y", Str("1")>> >>) ELSE Mp(<< <<"x2", IntV(1)>>, <<"y", Str("2")>> >>))
          [] OTHER -> phase = "changed" => out.r = "ok" /\ out.v = Str("changed 1")
=============================================================================
