------------------------------ MODULE MC_Keys -------------------------------
(***************************************************************************)
(* P04: every string over a small alphabet as a key, against a generative  *)
(* grammar of keys, and digging with every sequence of segments into a     *)
(* pool of values, for every merge strategy.                               *)
(***************************************************************************)
EXTENDS MCBase
CONSTANTS MaxLen, MaxSegs
Alpha == {"a", "1", "0", "-", ".", "'", "\""}
RECURSIVE StrsOfLen(_)
StrsOfLen(n) == IF n = 0 THEN {""} ELSE {c \o t : c \in Alpha, t \in StrsOfLen(n - 1)}

\* the grammar: what a segment of n characters may be: [src, val, q]
RECURSIVE SegGen(_)
Quoted(n) == \* quoted chunks of n characters
  UNION {{[src |-> q \o t \o q, val |-> t] : t \in {x \in StrsOfLen(n - 2) : \A j \in 1..Len(x) : Ch(x, j) # q}} : q \in {"'", "\""}}
SegGen(n) ==
  IF n = 0 THEN {[src |-> "", val |-> "", q |-> FALSE]}
  ELSE {[src |-> c \o g.src, val |-> c \o g.val, q |-> g.q] : c \in {"a", "1", "0", "-"}, g \in SegGen(n - 1)}
       \cup UNION {{[src |-> k.src \o g.src, val |-> k.val \o g.val, q |-> TRUE] : k \in Quoted(m), g \in SegGen(n - m)} : m \in 2..n}
Decimal(x) == \E n \in 0..120, neg \in {"", "-"}, z \in {"", "0", "00", "000", "0000"} : x = neg \o z \o ToString(n)
IntVal(x) == CHOOSE i \in (-120)..120 : \E z \in {"", "0", "00", "000", "0000"} :
               x = (IF i < 0 THEN "-" ELSE "") \o z \o ToString(IF i < 0 THEN -i ELSE i)
                 \/ (i = 0 /\ x = "-" \o z \o "0")
\* integers of more digits don't occur in strings of this length, except those made of 1 and 0 only
IsNum(g) == ~g.q /\ (IF Len(g.val) <= 3 THEN Decimal(g.val) ELSE IsInt32(g.val))
PartOf(g) == IF IsNum(g) THEN (IF Len(g.val) <= 3 THEN IntV(IntVal(g.val)) ELSE IntV(IntOf(g.val))) ELSE Str(g.val)
RECURSIVE KeyGen(_)
\* all keys of n characters: [src, parts]
KeyGen(n) ==
  {[src |-> g.src, parts |-> <<PartOf(g)>>] : g \in {x \in SegGen(n) : x.src # "" }}
  \cup UNION {{[src |-> k.src \o "." \o g.src, parts |-> Append(k.parts, PartOf(g))] :
                 k \in KeyGen(m), g \in {x \in SegGen(n - m - 1) : x.src # ""}} : m \in 1..(n - 2)}
Valid(n) == {k \in KeyGen(n) : ~IsInt(k.parts[1])}
Grammar == [n \in 0..MaxLen |-> IF n = 0 THEN {} ELSE Valid(n)]

\* digging
Vs == << Mp(<< <<"a", Arr(<<IntV(7), Str("e1"), Mp(<< <<"a", Null>>, <<"0", Str("zero")>> >>)>>)>>, <<"1", Str("one")>>, <<"-1", Str("neg")>>,
               <<"a.a", Bool(FALSE)>>, <<"", Str("empty")>> >>),
         Arr(<<Arr(<<Str("n00"), Str("n01")>>), Mp(<< <<"a", Mp(<< <<"1", Str("deep1")>>, <<"a", Arr(<<>>)>> >>)>> >>), Str("third")>>),
         Map(<< <<IntV(1), Str("int key 1")>>, <<IntV(0), Arr(<<Str("x")>>)>>, <<Str("a"), Map(<< <<IntV(-1), Str("negative")>> >>)>> >>),
         Str("scalar"), Null, IntV(3), Mp(<< <<"a", Str("%{alias('v2')}")>> >>) >>
Segs == <<"a", "1", "0", "2", "'1'", "\"a.a\"", "-1", "''", "01">>
RECURSIVE SegSeqs(_)
SegSeqs(n) == IF n = 0 THEN {""} ELSE {"." \o Segs[j] \o t : j \in 1..Len(Segs), t \in SegSeqs(n - 1)}
VName(j) == "v" \o ToString(j)
Half(j) == IF j \in {1, 3} THEN Map(<<Vs[j].m[1]>>) ELSE IF j = 2 THEN Arr(<<Vs[j].a[1]>>) ELSE Vs[j]
DigFiles == <<CfgFile(<<Mp(<< <<"name", Str("one")>>, <<"path", Str("one.yaml")>> >>), Mp(<< <<"name", Str("two")>>, <<"path", Str("two.yaml")>> >>)>>),
              F("data/one.yaml", Doc(Mp([j \in 1..Len(Vs) |-> <<VName(j), Half(j)>>]))),
              F("data/two.yaml", Doc(Mp([j \in 1..Len(Vs) |-> <<VName(j), Vs[j]>>])))>>
Strats == <<"first", "deep", "hash", "unique">>
World == [files |-> DigFiles, env |-> EmptyFn, fns |-> EmptyFn]
ReqOf(k, st) == LO(k, Mp(<< <<"merge", Str(st)>> >>))
VARIABLE plan
ParsePlan(n, c) == LET ss == SeqOf({x \in StrsOfLen(n) : Upto(x, 1) = c}) IN [j \in 1..Len(ss) |-> [op |-> "parsekey", key |-> ss[j]]]
DigPlan(v, st) ==
  LET ss == SeqOf(UNION {SegSeqs(n) : n \in 1..MaxSegs})
  IN <<NSession, NInv, ReqOf(VName(v), st)>> \o [j \in 1..Len(ss) |-> ReqOf(VName(v) \o ss[j], st)]
Plans == {[k |-> "parse", n |-> n, c |-> c, v |-> Null] : n \in 1..MaxLen, c \in Alpha}
         \cup {[k |-> "dig", n |-> v, c |-> Strats[s], v |-> Null] : v \in 1..Len(Vs), s \in 1..4}
OpsOf(p) == IF p.k = "parse" THEN ParsePlan(p.n, p.c) ELSE DigPlan(p.n, p.c)
VARIABLE root \* the outcome of looking up the root
Init == \E p \in Plans : MCInit(World) /\ plan = [id |-> p, ops |-> OpsOf(p)] /\ root = Silent
Next == Follow(plan.ops, "") /\ plan' = plan /\ root' = IF plan.id.k = "dig" /\ Len(hist) = 2 THEN out' ELSE root
MCView == <<plan.id, Len(hist)>>

ParsedByGrammar ==
  LastIs("parsekey") =>
    LET ks == {k \in Grammar[Len(LastOp.key)] : k.src = LastOp.key} IN
    IF ks = {} THEN out.r = "err"
    ELSE out.r = "ok" /\ \A k \in ks : out.v = Arr(k.parts)
\* the outcome of a dotted lookup is the one of its root, followed by digging
RECURSIVE Walk(_, _)
Walk(v, parts) ==
  IF Len(parts) = 0 THEN {v}
  ELSE IF IsArr(v) THEN UNION {Walk(v.a[j], Tail(parts)) : j \in {i \in 1..Len(v.a) : parts[1] = IntV(i - 1)}}
  ELSE IF IsMap(v) THEN UNION {Walk(v.m[j][2], Tail(parts)) : j \in {i \in 1..Len(v.m) : v.m[i][1] = parts[1]}}
  ELSE {}
SegVals == [x \in {Segs[j] : j \in 1..Len(Segs)} |->
              CASE x = "1" -> IntV(1) [] x = "0" -> IntV(0) [] x = "2" -> IntV(2) [] x = "-1" -> IntV(-1) [] x = "01" -> IntV(1)
                [] x = "'1'" -> Str("1") [] x = "\"a.a\"" -> Str("a.a") [] x = "''" -> Str("") [] OTHER -> Str(x)]
\* the segment sequence of a key, by search rather than by parsing
RECURSIVE SegsIn(_, _)
SegsIn(n, src) == IF src = "" THEN {<<>>}
                  ELSE IF n = 0 THEN {}
                  ELSE UNION {{<<SegVals[x]>> \o t : t \in SegsIn(n - 1, From(src, Len(x) + 2))} :
                              x \in {y \in DOMAIN SegVals : HasPrefix(src, "." \o y) /\
                                        (Len(src) = Len(y) + 1 \/ Ch(src, Len(y) + 2) = ".")}}
Dug ==
  (plan.id.k = "dig" /\ Len(hist) > 3) =>
    \E parts \in SegsIn(MaxSegs, From(LastOp.key, 3)) :
      LET ws == IF root.r = "ok" THEN Walk(root.v, parts) ELSE {} IN
      IF ws = {} THEN out.r = "nf" ELSE out.r = "ok" /\ \A x \in ws : out.v = x
=============================================================================
