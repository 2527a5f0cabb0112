------------------------------ MODULE MC_Calls ------------------------------
(***************************************************************************)
(* P13: calls of plugin functions of all kinds: with all sorts of keys,    *)
(* options and values, all sorts of responses, over either transport, from *)
(* executables that are told in all the ways there are.  In each world the *)
(* function f is called, then g of the same executable, then f again.      *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
VARIABLE c
Flt(x) == [f |-> x]
Kinds == {"lookup_key", "data_hash", "data_dig"}
Transports == {"", "unix", "tcp"}
\* ways to respond, and whether that is an error
Bads == {<<"status", x>> : x \in {"500", "204", "503", "201", "400"}} \cup {<<"garbage", x>> : x \in {"{", "nonsense", "[1 2]"}}
        \cup {<<x, "">> : x \in {"empty", "drop", "truncated", "err", "errall", "die"}}
Goods == {<<"table", "">>, <<"missing", "">>, <<"null", "">>, <<"opts", "">>}
\* where the executable is: as told by the entry, and where that is
Places == [none |-> [dir |-> "", file |-> "", at |-> "plugin/f"], dir |-> [dir |-> "x", file |-> "", at |-> "x/f"], file |-> [dir |-> "", file |-> "exe", at |-> "plugin/exe"],
           both |-> [dir |-> "x", file |-> "y/exe", at |-> "x/y/exe"], abs |-> [dir |-> "x", file |-> "/R/z/exe", at |-> "z/exe"], absdir |-> [dir |-> "/R/x", file |-> "", at |-> "x/f"],
           up |-> [dir |-> "x/../u", file |-> "./exe", at |-> "u/exe"], interp |-> [dir |-> "%{d}", file |-> "exe", at |-> "dd/exe"]]
Keys2 == {"k", "a b", "k&x=1", "q#a?b", "100%", "%2F", "a/b", "+", "<&>", "options", "key", "a;b", "null", "{}"}
        \cup (IF Rich THEN {"\\back", "q\"q", "%20", "true", "[1]", "..", "a:b", "'", "name"} ELSE {})
Vals2 == {Str("v"), Str("a&b=c %41 \"<q>\" \\ /"), IntV(0 - 1), Flt("1.0"), Flt("0.1"), Bool(FALSE), Null, Str(""), EmptyMap, Arr(<<>>), [g |-> "9007199254740993"],
          Arr(<<IntV(1), Arr(<<Null, Str("x")>>), Mp(<< <<"k&", Flt("2.0")>> >>)>>), Mp(<< <<"z", IntV(1)>>, <<"a", Mp(<< <<"n", Null>> >>)>> >>)}
         \cup (IF Rich THEN {Sens(Str("secret")), [g |-> "-9223372036854775808"], Mp(<< <<"p", Sens(IntV(1))>> >>), Flt("-2.5E+100"), Arr(<<Arr(<<Arr(<<>>)>>)>>)} ELSE {})

\* sensitive values can't be written to a configuration file
OptVals == {v \in Vals2 : ~IsSens(v) /\ ~(IsMap(v) /\ SHas(v, "p"))}

C(kind, beh, place, inproc, key, val, opt, tr) == [kind |-> kind, beh |-> beh[1], arg |-> beh[2], place |-> place, inproc |-> inproc, key |-> key, val |-> val, opt |-> opt, tr |-> tr]
Table == <<"table", "">>
Cases == {C(k, b, "both", FALSE, "k", Str("v"), IntV(3), t) : k \in Kinds, b \in Bads \cup Goods, t \in {"unix", "tcp"}}
         \cup {C(k, Table, p, i, "k", Str("v"), Str("o"), "") : k \in Kinds, p \in DOMAIN Places, i \in BOOLEAN}
         \cup {C(k, Table, "file", FALSE, key, v, Str(key), "") : k \in Kinds, key \in Keys2, v \in IF Rich THEN Vals2 ELSE {Str("v"), Flt("1.0")}}
         \cup {C(k, Table, "none", FALSE, "k", v, IF v \in OptVals THEN v ELSE Null, t) : k \in Kinds, v \in Vals2, t \in {"unix", "tcp"}}
         \cup {C(k, <<"opts", "">>, "none", FALSE, key, Null, v, "") : k \in {"lookup_key", "data_dig"}, key \in IF Rich THEN {"k", "a b"} ELSE {"k"}, v \in OptVals}

InProc == Mp(<< <<c.key, Str("of the process")>> >>)
World(x) ==
  LET pl == Places[x.place]
      tab == IF x.beh = "missing" THEN Mp(<< <<"other", IntV(1)>> >>) ELSE Mp(<< <<x.key, x.val>> >>)
      beh == IF x.beh = "missing" THEN "table" ELSE x.beh
      entry == Mp(<< <<"name", Str("p")>>, <<x.kind, Str("%{fn}")>>, <<"options", Mp(<< <<"opt-1", x.opt>>, <<"tmpl", Str("%{fn}")>> >>)>> >>
                  \o (IF pl.dir = "" THEN <<>> ELSE << <<"plugindir", Str(pl.dir)>> >>) \o (IF pl.file = "" THEN <<>> ELSE << <<"pluginfile", Str(pl.file)>> >>))
      exe == [x |-> [fns |-> [f |-> Fn(x.kind, beh, x.arg, tab), g |-> Fn(x.kind, "table", "", Mp(<< <<x.key, Str("of g")>> >>))], start |-> <<"ok">>, stop |-> "ok"]]
      \* executables elsewhere provide the same functions
      decoy == [x |-> [fns |-> [f |-> Fn(x.kind, "table", "", Mp(<< <<x.key, Str("decoy")>> >>)), g |-> Fn(x.kind, "table", "", Mp(<< <<x.key, Str("decoy")>> >>))], start |-> <<"ok">>, stop |-> "ok"]]
      ats == {Places[p].at : p \in DOMAIN Places} \cup {"plugin/g"}
  IN [files |-> <<CfgFile(<<entry, Mp(<< <<"name", Str("fallback")>>, <<"path", Str("c.yaml")>> >>)>>), F("data/c.yaml", Doc(Mp(<< <<x.key, Str("fallback")>> >>))), F(pl.at, exe)>>
               \o (IF x.inproc \/ x.place \in {"dir", "both", "abs"} THEN Cat2([j \in 1..Cardinality(ats) |-> LET a == SeqOf(ats)[j] IN IF a = pl.at THEN <<>> ELSE <<F(a, decoy)>>]) ELSE <<>>),
      env |-> EmptyFn,
      fns |-> IF x.inproc THEN [n \in {"f"} |-> Fn(x.kind, "table", "", Mp(<< <<x.key, Str("of the process")>> >>))] ELSE EmptyFn]
Quoted(k) == IF k \in {"..", "q\"q"} \/ Contains(k, ".") THEN "'" \o k \o "'" ELSE IF Contains(k, "'") THEN "\"" \o k \o "\"" ELSE k
Sess == IF c.tr = "" THEN [op |-> "session", s |-> "s", root |-> "/R"] ELSE [op |-> "session", s |-> "s", root |-> "/R", transport |-> c.tr]
I(i, f) == [op |-> "inv", i |-> i, s |-> "s", scope |-> Mp(<< <<"fn", Str(f)>>, <<"d", Str("dd")>> >>)]
Lk(i) == [op |-> "lookup", i |-> i, key |-> Quoted(c.key)]
\* g is provided by a file of its name when none is given
SameExe == Places[c.place].file # ""
Plan == <<Sess, I("a", "f"), I("b", "g"), Lk("a")>> \o (IF SameExe THEN <<Lk("b")>> ELSE <<>>) \o <<Lk("a"), [op |-> "procs"], [op |-> "kill", s |-> "s"], [op |-> "procs"]>>
Init == c \in Cases /\ MCInit(World(c))
Next == c' = c /\ Follow(Plan, "c")
MCView == <<c, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
IsBadResponse == <<c.beh, c.arg>> \in Bads
Opts(f) == Mp(<< <<"opt-1", Exchanged(c.opt)>>, <<"tmpl", Str(f)>> >>)
\* what the first level has for the key
Own == CASE c.beh = "table" -> [r |-> "ok", v |-> Exchanged(c.val)]
         [] c.beh = "missing" -> [r |-> "nf", v |-> Null]
         [] c.beh = "null" -> IF c.kind = "data_hash" THEN [r |-> "nf", v |-> Null] ELSE [r |-> "ok", v |-> Null]
         [] c.beh = "opts" -> IF c.kind = "data_hash" THEN [r |-> "nf", v |-> Null] ELSE [r |-> "ok", v |-> Opts("f")]
         [] OTHER -> [r |-> "err", v |-> Null]
Yields == CASE c.inproc -> out.r = "ok" /\ out.v = Str("of the process")
            [] Own.r = "nf" -> out.r = "ok" /\ out.v = Str("fallback")
            [] Own.r = "ok" -> out.r = "ok" /\ out.v = Own.v
            [] OTHER -> out.r = "err"
FirstLookup == Len(hist) = 4
Respond ==
  /\ LastIs("lookup") /\ LastOp.i = "a" /\ (FirstLookup \/ c.beh # "die") => Yields
  \* an error is an error of that lookup only
  /\ LastIs("lookup") /\ LastOp.i = "b" => IF c.beh = "die" THEN out.r = "err" ELSE out.r = "ok" /\ out.v = Str("of g")
\* one call for the options of lookups, which data_hash functions needn't, and one for the key
Asked ==
  LastIs("lookup") /\ (FirstLookup \/ LastOp.i = "b") =>
    LET f == IF LastOp.i = "a" THEN "f" ELSE "g"
        want == IF c.inproc /\ f = "f" THEN Mp(<< <<"opt-1", c.opt>>, <<"tmpl", Str(f)>> >>) ELSE Opts(f)
        mine == SelectSeq(out.calls, LAMBDA x : x.f = f)
        keys == {mine[j].k : j \in 1..Len(mine)}
    IN IF c.beh = "die" /\ f = "g" THEN TRUE
       ELSE /\ Len(mine) = Len(out.calls)
            /\ \A j \in 1..Len(mine) : mine[j].o = want
            /\ keys \subseteq {LOKey, IF c.kind = "data_hash" THEN "" ELSE c.key}
            /\ Len(mine) = Cardinality(keys)
            /\ (c.beh \notin {"errall"} \/ f = "g") => (IF c.kind = "data_hash" THEN "" ELSE c.key) \in keys
OneProcess ==
  LastIs("procs") =>
    IF c.inproc /\ ~SameExe THEN Len(out.v.m) = 1 \* no process, and no connection
    ELSE /\ Len(out.v.m) = 2
         /\ SGet(out.v, "/R/" \o Places[c.place].at).a[1] = IntV(1)
         /\ SGet(out.v, "connections") = IntV(0)
=============================================================================
