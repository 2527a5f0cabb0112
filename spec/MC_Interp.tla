------------------------------ MODULE MC_Interp -----------------------------
(***************************************************************************)
(* P05: strings composed of pieces, each with a meaning of its own.  The   *)
(* meaning of a string is the concatenation of the meanings of its pieces. *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT MaxPieces
T(src, txt) == [src |-> src, k |-> "t", txt |-> txt, v |-> Null]       \* yields text
A(src, v) == [src |-> src, k |-> "a", txt |-> "", v |-> v]              \* must be alone, yields a value
E(src) == [src |-> src, k |-> "e", txt |-> "", v |-> Null]              \* an error
NoV == [none |-> 1]
MapV == Mp(<< <<"k", Arr(<<IntV(1), Str("two")>>)>>, <<"w", Str("in map")>> >>)
Pieces == <<
  T("text ", "text "), T("%", "%"), T("}", "}"), T("{ $1", "{ $1"), T(" ", " "), T("\n", "\n"),
  T("%{}", ""), T("%{ }", ""), T("%{::}", ""), T("%{''}", ""), T("%{\"::\"}", ""), T("%{\"\"}", ""), T("%{'::'}", ""), T("%{::v}", ""),
  T("%{v}", "web"), T("%{ v }", "web"), T("%{scope('v')}", "web"), T("%{m.x}", "mx"), T("%{m.l.1}", "two"), T("%{m.nosuch}", ""),
  T("%{'q.v'}", "quoted"), T("%{novar}", ""), T("%{iv}", "<web>"), T("%{m}", "{\"x\":\"mx\",\"l\":{1,\"two\"}}"), T("%{num}", "42"),
  T("%{a::v}", "ns"),
  T("%{lookup('s')}", "str"), T("%{lookup(\"s\")}", "str"), T("%{ hiera('mp.w') }", "in map"), T("%{lookup('mp.k.0')}", "1"),
  T("%{lookup('nokey')}", ""), T("%{hiera('s.x')}", ""), T("%{lookup('flag')}", "true"), T("%{lookup('nested')}", "see str"),
  T("%{literal('%')}", "%"), T("%{literal('x y')}", "x y"),
  A("%{alias('mp')}", MapV), A("%{alias('mp.k')}", MapV.m[1][2]), A("%{alias('nokey')}", Str("")), A("%{alias(\"flag\")}", Bool(TRUE)),
  A("%{strict_alias('mp.k.0')}", IntV(1)), A("%{strict_alias('nokey')}", NoV), A("%{ alias('nested') }", Str("see str")),
  E("%{nosuch('s')}"), E("%{lookup('a..b')}"), E("%{.a}"), E("%{'x}"), E("%{alias('a..b')}"), E("%{lookup(\"'x\")}") >>
NP == Len(Pieces)
\* pieces that can't precede others as the text would combine to something else
Joinable(p, q) == ~(Pieces[p].src = "%" /\ HasPrefix(Pieces[q].src, "{"))
                  /\ ~(Pieces[p].src = "%{literal('%')}" /\ HasPrefix(Pieces[q].src, "{"))
Seqs(n) == {sq \in [1..n -> 1..NP] : \A j \in 1..(n - 1) : Joinable(sq[j], sq[j + 1])}
RECURSIVE Src(_)
Src(sq) == IF Len(sq) = 0 THEN "" ELSE Pieces[sq[1]].src \o Src(Tail(sq))
RECURSIVE Txt(_)
Txt(sq) == IF Len(sq) = 0 THEN "" ELSE Pieces[sq[1]].txt \o Txt(Tail(sq))
Kinds(sq) == {Pieces[sq[j]].k : j \in 1..Len(sq)}
\* the meaning: [r, v]; what is wrong is an error wherever it is
Meaning(sq) ==
  IF "e" \in Kinds(sq) \/ ("a" \in Kinds(sq) /\ Len(sq) > 1) THEN [r |-> "err", v |-> Null]
  ELSE IF "a" \in Kinds(sq) THEN (IF Pieces[sq[1]].v = NoV THEN [r |-> "nf", v |-> Null] ELSE [r |-> "ok", v |-> Pieces[sq[1]].v])
  ELSE [r |-> "ok", v |-> Str(Txt(sq))]

ScopeV == Mp(<< <<"v", Str("web")>>, <<"m", Mp(<< <<"x", Str("mx")>>, <<"l", Arr(<<IntV(1), Str("two")>>)>> >>)>>,
                <<"q.v", Str("quoted")>>, <<"iv", Str("<%{v}>")>>, <<"num", IntV(42)>>, <<"a::v", Str("ns")>>, <<"", Str("no name")>> >>)
Base == << <<"s", Str("str")>>, <<"mp", MapV>>, <<"flag", Bool(TRUE)>>, <<"nested", Str("see %{lookup('s')}")>> >>
Name(sq) == IF Len(sq) = 1 THEN "k" \o ToString(sq[1]) ELSE "k" \o ToString(sq[1]) \o "_" \o ToString(sq[2])
\* where the string is: the value itself, an array element, a map value, a map key, deep down
Places == <<"val", "elem", "mval", "mkey", "deep">>
Put(pl, x) == CASE pl = "val" -> Str(x) [] pl = "elem" -> Arr(<<Str("first"), Str(x), IntV(3)>>)
                [] pl = "mval" -> Mp(<< <<"f", Str(x)>>, <<"o", Str("other %{v}")>> >>)
                [] pl = "mkey" -> Mp(<< <<x, Str("at key")>> >>)
                [] OTHER -> Mp(<< <<"d", Arr(<<Arr(<<Str(x)>>), Mp(<< <<"e", Arr(<<Str(x)>>)>> >>)>>)>> >>)
Expect(pl, mn) ==
  LET v == IF mn.r = "nf" THEN Null ELSE mn.v IN
  IF mn.r = "err" THEN mn
  ELSE IF pl = "val" THEN mn
  ELSE [r |-> "ok",
        v |-> CASE pl = "elem" -> Arr(<<Str("first"), v, IntV(3)>>)
                [] pl = "mval" -> Mp(<< <<"f", v>>, <<"o", Str("other web")>> >>)
                [] pl = "mkey" -> Map(<< <<v, Str("at key")>> >>)
                [] OTHER -> Mp(<< <<"d", Arr(<<Arr(<<v>>), Mp(<< <<"e", Arr(<<v>>)>> >>)>>)>> >>)]
DataSeqs == Seqs(1) \cup (IF MaxPieces > 2 THEN Seqs(2) ELSE {})
DataFile(pl, f) == LET ss == SeqOf({sq \in DataSeqs : sq[1] = f}) IN
   Mp(Base \o [j \in 1..Len(ss) |-> <<Name(ss[j]), Put(pl, Src(ss[j]))>>])
World(pl, f) == [files |-> <<CfgFile(<<Mp(<< <<"name", Str("one")>>, <<"path", Str("one.yaml")>> >>)>>), F("data/one.yaml", Doc(DataFile(pl, f)))>>,
                 env |-> EmptyFn, fns |-> EmptyFn]
VARIABLE plan
Sess == <<[op |-> "session", s |-> "s", root |-> "/R", scope |-> ScopeV], NInv>>
LookupPlan(f) == LET ss == SeqOf({sq \in DataSeqs : sq[1] = f}) IN
  [ops |-> Sess \o [j \in 1..Len(ss) |-> L(Name(ss[j]))], seqs |-> <<<<>>, <<>>>> \o ss]
InterpPlan(f) == LET ss == SeqOf({sq \in UNION {Seqs(n) : n \in 1..MaxPieces} : sq[1] = f}) IN
  [ops |-> Sess \o [j \in 1..Len(ss) |-> [op |-> "interp", i |-> "i", v |-> Str(Src(ss[j]))]], seqs |-> <<<<>>, <<>>>> \o ss]
Init == \E f \in 1..NP :
          \/ \E pl \in 1..Len(Places) : MCInit(World(Places[pl], f)) /\ plan = [id |-> <<f, Places[pl]>>, p |-> LookupPlan(f)]
          \/ MCInit(World("val", f)) /\ plan = [id |-> <<f, "interp">>, p |-> InterpPlan(f)]
Next == Follow(plan.p.ops, "") /\ plan' = plan
MCView == <<plan.id, Len(hist)>>

Composed ==
  Len(hist) > 2 =>
    LET mn == Meaning(plan.p.seqs[Len(hist)])
        e == IF plan.id[2] = "interp" THEN mn ELSE Expect(plan.id[2], mn)
    IN out.r = e.r /\ (out.r = "ok" => out.v = e.v)
=============================================================================
