------------------------------ MODULE MC_Valid ------------------------------
(***************************************************************************)
(* P07: config documents that are labelled valid or invalid by hand, each  *)
(* in every position where it may be given (only entry, first or last of   *)
(* three), and data files in every state at every level.  Every lookup of  *)
(* the session has the same verdict.                                       *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Full
E0 == << <<"name", Str("e")>> >>
P1 == << <<"path", Str("f.yaml")>> >>
EP(ps) == Mp(E0 \o P1 \o ps)
EN(ps) == Mp(E0 \o ps)
Num(i) == IntV(i)
\* entries: <<valid, entry>>; the functions h, k and d exist
FnF(k) == <<k, Str(CASE k = "data_hash" -> "h" [] k = "lookup_key" -> "k" [] OTHER -> "d")>>
LocF(k) == <<k, CASE k \in {"path", "glob", "uri"} -> Str("f.yaml") [] k = "mapped_paths" -> Strs(<<"list", "x", "f.yaml">>) [] OTHER -> Strs(<<"f.yaml">>)>>
Pairs(ks) == LET n == Len(ks) IN Cat2([j \in 1..n |-> [m \in 1..(n - j) |-> <<ks[j], ks[j + m]>>]])
Good(e) == <<TRUE, e>>
Wrong(e) == <<FALSE, e>>
TwoFns == LET p == Pairs(FunctionKeys) IN [j \in 1..Len(p) |-> Wrong(EP(<<FnF(p[j][1]), FnF(p[j][2])>>))]
TwoLocs == LET p == Pairs(LocationKeys) IN [j \in 1..Len(p) |-> Wrong(EN(<<LocF(p[j][1]), LocF(p[j][2])>>))]
OneFn == [j \in 1..3 |-> Good(EP(<<FnF(FunctionKeys[j])>>))]
OneLoc == [j \in 1..7 |-> Good(EN(<<LocF(LocationKeys[j])>>))]
Opt1(k, v) == Mp(<< <<k, v>> >>)
OptsE(v) == EP(<< <<"options", v>>, FnF("lookup_key")>>)
\* values of string fields and of list fields
NotStr == <<Num(1), Bool(TRUE), Null, Str(""), Arr(<<Str("x")>>), EmptyMap>>
NotList == <<Num(1), Str("x"), Null, Arr(<<>>), Arr(<<Num(1)>>), Arr(<<Str("a"), Str("")>>), Mp(<< <<"a", Str("b")>> >>), Arr(<<Str("a"), Arr(<<Str("b")>>)>>)>>
StrFields == <<"path", "glob", "uri", "data_hash", "lookup_key", "data_dig", "datadir", "plugindir", "pluginfile">>
ListFields == <<"paths", "globs", "uris">>
BadStr == Cat2([j \in 1..Len(StrFields) |-> [m \in 1..Len(NotStr) |-> Wrong(EN(<< <<StrFields[j], NotStr[m]>> >>))]])
BadList == Cat2([j \in 1..Len(ListFields) |-> [m \in 1..Len(NotList) |-> Wrong(EN(<< <<ListFields[j], NotList[m]>> >>))]])
BadMapped == [m \in 1..Len(NotList) |-> Wrong(EN(<< <<"mapped_paths", NotList[m]>> >>))]
             \o <<Wrong(EN(<< <<"mapped_paths", Strs(<<"a", "b">>)>> >>)), Wrong(EN(<< <<"mapped_paths", Strs(<<"a", "b", "c", "d">>)>> >>)),
                  Wrong(EN(<< <<"mapped_paths", Strs(<<"list", "", "c">>)>> >>))>>
BadName == [m \in 1..Len(NotStr) |-> Wrong(Mp(<< <<"name", NotStr[m]>> >> \o P1))] \o <<Wrong(Mp(P1)), Wrong(EmptyMap)>>
OptNames == <<Good(OptsE(Opt1("a", Num(1)))), Good(OptsE(Opt1("a_b-c1", Strs(<<"x">>)))), Good(OptsE(EmptyMap)), Good(OptsE(Opt1("Path", Num(1)))),
              Good(OptsE(Opt1("nested", Opt1("path", Num(1))))), Good(OptsE(Opt1("paths", Num(1)))),
              Wrong(OptsE(Opt1("path", Num(1)))), Wrong(OptsE(Opt1("uri", Str("u")))),
              Wrong(OptsE(Mp(<< <<"a", Num(1)>>, <<"path", Null>> >>))),
              Wrong(EN(<<FnF("lookup_key"), <<"options", Opt1("path", Num(1))>> >>)), Wrong(EN(<<FnF("data_hash"), <<"path", Str("f.yaml")>>, <<"options", Opt1("uri", Num(1))>> >>)),
              Good(EN(<<FnF("data_dig"), <<"uri", Str("u")>>, <<"options", Opt1("paths", Num(1))>> >>)),
              Wrong(OptsE(Opt1("1a", Num(1)))), Wrong(OptsE(Opt1("a b", Num(1)))), Wrong(OptsE(Opt1("", Num(1)))), Wrong(OptsE(Opt1("_a", Num(1)))),
              Wrong(OptsE(Opt1("a-", Num(1)))), Wrong(OptsE(Map(<< <<Num(1), Num(1)>> >>))),
              Wrong(OptsE(Num(1))), Wrong(OptsE(Strs(<<"a">>))), Wrong(OptsE(Str("x"))), Wrong(OptsE(Null))>>
\* method syntax and malformed keys in settings
Exprs == <<"%{lookup('k')}", "a%{hiera(\"k\")}", "%{alias('k')}", "%{strict_alias('k')}", "%{literal('x')}b", "%{scope('v')}", "%{v}%{lookup('k')}", "%{a..b}",
           "%{nosuch('k')}">>
Meth == Cat2([j \in 1..Len(Exprs) |-> LET x == Str(Exprs[j]) IN <<
  Wrong(EN(<< <<"path", x>> >>)), Wrong(EN(<< <<"paths", Arr(<<Str("f.yaml"), x>>)>> >>)), Wrong(EN(<< <<"glob", x>> >>)),
  Wrong(EN(<< <<"globs", Arr(<<Str("*"), x>>)>> >>)), Wrong(EN(<< <<"uri", x>>, FnF("lookup_key")>>)), Wrong(EN(<< <<"uris", Arr(<<Str("u"), x>>)>>, FnF("data_hash")>>)),
  Wrong(EN(<< <<"mapped_paths", Arr(<<Str("list"), Str("x"), x>>)>> >>)),
  Wrong(EP(<< <<"datadir", x>> >>)), Wrong(EP(<< <<"plugindir", x>> >>)), Wrong(EN(<< <<"lookup_key", x>> >>)),
  Wrong(OptsE(Opt1("a", x))), Wrong(OptsE(Opt1("a", Arr(<<Num(1), Opt1("b", x)>>)))) >>])
Plain == <<Good(EN(<< <<"path", Str("%{v}%{::}.yaml")>> >>)), Good(EP(<< <<"datadir", Str("%{v}")>> >>)), Good(OptsE(Opt1("a", Str("%{list.0} %{nosuch}")))),
           Good(EP(<< <<"plugindir", Str("p")>>, <<"pluginfile", Str("f")>> >>)), Good(EN(<< <<"glob", Str("*.yaml")>>, <<"datadir", Str("nodir")>> >>)),
           Wrong(EP(<< <<"bogus", Str("x")>> >>)), Wrong(EP(<< <<"Path", Str("x")>> >>)), Wrong(EP(<< <<"backend", Null>> >>)),
           Wrong(Str("e")), Wrong(Arr(<<EN(P1)>>)), Wrong(Null), Wrong(Num(1))>>
Entries == TwoFns \o TwoLocs \o OneFn \o OneLoc \o BadStr \o BadList \o BadMapped \o BadName \o OptNames \o Meth \o Plain

\* documents: <<valid, content>>
Ver == << <<"version", Num(5)>> >>
D(ps) == Doc(Mp(Ver \o ps))
H(es) == <<"hierarchy", Arr(es)>>
Other(n) == Mp(<< <<"name", Str(n)>>, <<"path", Str("o.yaml")>> >>)
Defs(ps) == <<"defaults", Mp(ps)>>
DefsOk == << <<"data_hash", Str("yaml_data")>>, <<"datadir", Str("data")>> >>
Docs == <<
  <<TRUE, D(<<>>)>>, <<TRUE, D(<<H(<<>>)>>)>>, <<TRUE, D(<<H(<<EN(P1)>>)>>)>>, <<TRUE, D(<<Defs(<<>>), H(<<EN(P1)>>)>>)>>,
  <<TRUE, D(<<Defs(DefsOk), H(<<EN(P1)>>)>>)>>, <<TRUE, D(<<H(<<EN(P1)>>), <<"default_hierarchy", Arr(<<EN(P1)>>)>> >>)>>,
  <<TRUE, D(<<Defs(<<FnF("lookup_key"), <<"options", Opt1("a", Str("%{v}"))>> >>)>>)>>,
  <<FALSE, Doc(Mp(<<H(<<EN(P1)>>)>>))>>, <<FALSE, Doc(Mp(<< <<"version", Num(4)>>, H(<<EN(P1)>>)>>))>>, <<FALSE, Doc(Mp(<< <<"version", Num(6)>> >>))>>,
  <<FALSE, Doc(Mp(<< <<"version", Str("5")>>, H(<<EN(P1)>>)>>))>>, <<FALSE, Doc(Mp(<< <<"version", Null>> >>))>>, <<FALSE, Doc(EmptyMap)>>,
  <<FALSE, Doc(Null)>>, <<FALSE, Doc(Str("x"))>>, <<FALSE, Doc(Num(5))>>, <<FALSE, Doc(Arr(<<Mp(Ver)>>))>>,
  <<FALSE, D(<< <<"bogus", Num(1)>> >>)>>, <<FALSE, D(<< <<"Hierarchy", Arr(<<>>)>> >>)>>, <<FALSE, D(<< <<"backends", Strs(<<"yaml">>)>> >>)>>,
  <<FALSE, D(<< <<"hierarchy", EN(P1)>> >>)>>, <<FALSE, D(<< <<"hierarchy", Null>> >>)>>, <<FALSE, D(<< <<"hierarchy", Str("e")>> >>)>>,
  <<FALSE, D(<<H(<<EN(P1), EN(P1)>>)>>)>>, <<FALSE, D(<<H(<<EN(P1), Other("b"), EN(<<>>)>>)>>)>>, <<FALSE, D(<<H(<<Other("a"), EN(P1), EN(P1)>>)>>)>>,
  <<FALSE, D(<<H(<<EN(P1)>>), <<"default_hierarchy", Arr(<<Other("x"), Other("x")>>)>> >>)>>,
  <<FALSE, D(<<H(<<EN(P1)>>), <<"default_hierarchy", Arr(<<EP(<< <<"uri", Str("x")>> >>)>>)>> >>)>>,
  <<FALSE, D(<<H(<<EN(P1)>>), <<"default_hierarchy", Arr(<<OptsE(Opt1("uri", Num(1)))>>)>> >>)>>,
  <<FALSE, D(<<H(<<EN(P1)>>), <<"default_hierarchy", Arr(<<EN(<< <<"path", Str("%{lookup('k')}")>> >>)>>)>> >>)>>,
  <<FALSE, D(<<H(<<EN(P1)>>), <<"default_hierarchy", EN(P1)>> >>)>>,
  <<FALSE, D(<<Defs(<<FnF("lookup_key"), FnF("data_hash")>>), H(<<EN(P1)>>)>>)>>, <<FALSE, D(<<Defs(<<FnF("data_dig"), FnF("lookup_key")>>), H(<<EN(P1)>>)>>)>>,
  <<FALSE, D(<<Defs(<< <<"options", Opt1("path", Num(1))>> >>), H(<<EN(P1)>>)>>)>>, <<FALSE, D(<<Defs(<< <<"options", Opt1("uri", Num(1))>> >>), H(<<EN(P1)>>)>>)>>,
  <<FALSE, D(<<Defs(P1), H(<<EN(P1)>>)>>)>>, <<FALSE, D(<<Defs(<< <<"name", Str("x")>> >>), H(<<EN(P1)>>)>>)>>, <<FALSE, D(<<Defs(<< <<"uris", Strs(<<"x">>)>> >>), H(<<EN(P1)>>)>>)>>,
  <<FALSE, D(<<Defs(<< <<"datadir", Num(1)>> >>), H(<<EN(P1)>>)>>)>>, <<FALSE, D(<< <<"defaults", Str("x")>>, H(<<EN(P1)>>)>>)>>, <<FALSE, D(<< <<"defaults", Null>>, H(<<EN(P1)>>)>>)>>,
  <<FALSE, D(<<Defs(<< <<"datadir", Str("%{alias('k')}")>> >>), H(<<EN(P1)>>)>>)>>, <<FALSE, D(<<Defs(<<FnF("lookup_key"), <<"options", Opt1("a", Strs(<<"%{hiera('x')}">>))>> >>), H(<<EN(P1)>>)>>)>>,
  <<FALSE, [bad |-> "version: 5\nhierarchy: ["]>>, <<FALSE, [bad |-> "version: 5\n hierarchy: []"]>>, <<FALSE, [bad |-> "{"]>>, <<FALSE, [bad |-> "\tversion: 5"]>>,
  <<FALSE, [bad |-> "a: b: c"]>>, <<FALSE, [bad |-> ""]>>, <<FALSE, [bad |-> "version: 5\n%"]>> >>
Placed(e, pos) == IF pos = 1 THEN <<e>> ELSE IF pos = 2 THEN <<e, Other("b"), Other("c")>> ELSE <<Other("a"), Other("b"), e>>
AllDocs == Docs \o Cat2([pos \in 1..(IF Full THEN 3 ELSE 2) |-> LET q == IF pos = 1 THEN 1 ELSE 3 IN
             [j \in 1..Len(Entries) |-> <<Entries[j][1], D(<<H(Placed(Entries[j][2], IF Full THEN pos ELSE q))>>)>>]])

CfgData == <<F("data/f.yaml", Doc(Mp(<< <<"k", Str("v")>> >>))), F("data/o.yaml", Doc(Mp(<< <<"k2", Str("v2")>> >>)))>>
Scope1 == Mp(<< <<"v", Str("web")>>, <<"list", Strs(<<"f", "o">>)>> >>)
SessOp(nm, top) ==
  IF top = "mux" THEN [op |-> "session", s |-> nm, root |-> "/R", scope |-> Scope1, top |-> "mux", provs |-> <<"config">>]
  ELSE [op |-> "session", s |-> nm, root |-> "/R", scope |-> Scope1]
InvOp(i, s) == [op |-> "inv", i |-> i, s |-> s]
LI(i, k) == [op |-> "lookup", i |-> i, key |-> k]
PlanFor(top) == <<SessOp("s", top), InvOp("i", "s"), LI("i", "k"), LI("i", "k"), LI("i", "nosuch"), InvOp("j", "s"), LI("j", "k2"), LI("i", "k2"),
                  LO("k", Mp(<< <<"merge", Str("unique")>> >>)), SessOp("t", top), InvOp("m", "t"), LI("m", "k")>>

(***************************************************************************)
(* The states that data files can be in                                    *)
(***************************************************************************)
States == <<"key", "nokey", "none", "bad", "array", "scalar", "null", "dir">>
Slots == <<"data/a.yaml", "data/b.json", "data/c.yaml">>
Content(j, st) ==
  CASE st = "key" -> Doc(Mp(<< <<"k", Str("v" \o ToString(j))>> >>)) [] st = "nokey" -> Doc(Mp(<< <<"other", Num(1)>> >>))
    [] st = "bad" -> [bad |-> IF j = 2 THEN "{\"k\": " ELSE "k: [1"] [] st = "array" -> Doc(Arr(<<Str("k")>>)) [] st = "scalar" -> Doc(Str("k"))
    [] OTHER -> IF j = 2 THEN Doc(Num(3)) ELSE Doc(Null)
DataFiles(c) ==
  Cat2([j \in 1..3 |-> CASE c[j] = "none" -> <<>> [] c[j] = "dir" -> <<F(Slots[j] \o "/x.yaml", Doc(EmptyMap))>>
                         [] OTHER -> <<F(Slots[j], Content(j, c[j]))>>])
DataCfg == CfgFile(<<Mp(<< <<"name", Str("a")>>, <<"path", Str("a.yaml")>> >>),
                     Mp(<< <<"name", Str("b")>>, <<"data_hash", Str("json_data")>>, <<"path", Str("b.json")>> >>),
                     Mp(<< <<"name", Str("c")>>, <<"paths", Strs(<<"nosuch.yaml", "c.yaml">>)>> >>)>>)
Combos == {c \in [1..3 -> {States[j] : j \in 1..Len(States)}] : Full \/ Cardinality({j \in 1..3 : c[j] \notin {"key", "nokey"}}) <= 2}

Fns == [x \in {"h", "k", "d"} |-> Fn(CASE x = "h" -> "data_hash" [] x = "k" -> "lookup_key" [] OTHER -> "data_dig", "table", "", EmptyMap)]
\* what a config says doesn't depend on the order of the keys of a hash
RECURSIVE Rev(_)
Rev(v) == IF IsMap(v) THEN Map([j \in 1..Len(v.m) |-> LET e == v.m[Len(v.m) + 1 - j] IN <<e[1], Rev(e[2])>>])
          ELSE IF IsArr(v) THEN Arr([j \in 1..Len(v.a) |-> Rev(v.a[j])]) ELSE v
DocOf(n, t) == LET d == AllDocs[n][2] IN IF t = "rev" /\ "v" \in DOMAIN d THEN Doc(Rev(d.v)) ELSE d
Worlds == {[t |-> "cfg", n |-> n, top |-> t, valid |-> TRUE, c |-> <<>>] : n \in {0}, t \in {"config", "mux"}}
          \cup {[t |-> "cfg", n |-> n, top |-> t, valid |-> AllDocs[n][1], c |-> <<>>] :
                  n \in 1..Len(AllDocs), t \in IF Full THEN {"config", "mux"} ELSE {"config"}}
          \cup {[t |-> "rev", n |-> n, top |-> "config", valid |-> AllDocs[n][1], c |-> <<>>] : n \in {j \in 1..Len(AllDocs) : DocOf(j, "rev") # DocOf(j, "cfg")}}
          \cup {[t |-> "cfgdir", n |-> 0, top |-> "config", valid |-> FALSE, c |-> <<>>]}
          \cup {[t |-> "data", n |-> 0, top |-> t, valid |-> \A j \in 1..3 : c[j] \in {"key", "nokey", "none"}, c |-> c] :
                  c \in Combos, t \in IF Full THEN {"config", "mux"} ELSE {"config"}}
FilesFor(x) ==
  CASE x.t \in {"cfg", "rev"} -> (IF x.n = 0 THEN <<>> ELSE << <<"/R/hiera.yaml", DocOf(x.n, x.t)>> >>) \o CfgData
    [] x.t = "cfgdir" -> <<F("hiera.yaml/x", Doc(EmptyMap))>> \o CfgData
    [] OTHER -> <<DataCfg>> \o DataFiles(x.c)
World(x) == [x |-> x, files |-> FilesFor(x), env |-> EmptyFn, fns |-> Fns]
Init == \E x \in Worlds : MCInit(World(x))
Next == Follow(PlanFor(w.x.top), "")
MCView == <<w.x, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
Verdict == LastIs("lookup") => IF w.x.valid THEN out.r # "err" ELSE out.r = "err"
Hits == {j \in 1..3 : w.x.c[j] = "key"}
DataOutcome ==
  (LastIs("lookup") /\ w.x.t = "data" /\ w.x.valid) =>
    IF LastOp.key # "k" \/ Hits = {} THEN out.r = "nf"
    ELSE IF "opts" \in DOMAIN LastOp THEN out.r = "ok" /\ Len(out.v.a) = Cardinality(Hits)
    ELSE out.r = "ok" /\ out.v = Str("v" \o ToString(CHOOSE j \in Hits : \A i \in Hits : j <= i))
=============================================================================
