------------------------------- MODULE MC_Refs ------------------------------
(***************************************************************************)
(* P08: every graph of references between a few keys and a scope variable. *)
(* A lookup is an error when a cycle can be reached from the key, and      *)
(* otherwise yields what the references unfold to.                         *)
(***************************************************************************)
EXTENDS MCBase
CONSTANTS NKeys, KeyPairs, VarPairs
Nodes == 1..(NKeys + 1)
Var == NKeys + 1
Name(n) == IF n = Var THEN "v" ELSE Ch("abcdef", n)
\* the ways in which a key gives its value: style and targets
Leaf == [st |-> "leaf", to |-> <<>>]
Texts == {[st |-> "text", to |-> <<n>>] : n \in Nodes}
Pairs == {[st |-> "text", to |-> <<n, m>>] : n \in Nodes, m \in Nodes}
OneOf(st) == {[st |-> st, to |-> <<n>>] : n \in Nodes \ {Var}}
KeyContents(k) == {Leaf} \cup Texts \cup (IF k <= KeyPairs THEN Pairs ELSE {}) \cup OneOf("alias") \cup OneOf("strict") \cup OneOf("fn") \cup OneOf("deep")
                  \cup OneOf("two")
VarContents == {Leaf} \cup Texts \cup (IF VarPairs THEN Pairs ELSE {})
Graphs == {g \in [Nodes -> UNION {KeyContents(k) : k \in 1..NKeys} \cup VarContents] :
             (\A k \in 1..NKeys : g[k] \in KeyContents(k)) /\ g[Var] \in VarContents}
Ref(n, m) == IF n = Var THEN "%{v}" ELSE IF m % 2 = 1 THEN "%{lookup('" \o Name(n) \o "')}" ELSE "%{hiera('" \o Name(n) \o "')}"
RECURSIVE RefsOf(_, _)
RefsOf(to, m) == IF Len(to) = 0 THEN "" ELSE Ref(to[1], m) \o RefsOf(Tail(to), m + 1)
Content(g, n) ==
  LET c == g[n] IN
  CASE c.st = "leaf" -> Str(Name(n)) [] c.st = "text" -> Str("<" \o RefsOf(c.to, n) \o ">")
    [] c.st = "alias" -> Str("%{alias('" \o Name(c.to[1]) \o "')}") [] c.st = "strict" -> Str("%{strict_alias('" \o Name(c.to[1]) \o "')}")
    [] c.st = "deep" -> Mp(<< <<"m", Arr(<<IntV(1), Str(Ref(c.to[1], n))>>)>> >>)
    [] c.st = "two" -> Str("1" \o Ref(c.to[1], n))
Keys1(g, st) == SelectSeq(SeqOf(1..NKeys), LAMBDA k : g[k].st \in st)
FnName(k) == "fn" \o Name(k)
\* a key of style fn is provided by a function that looks up another key
World(g) ==
  LET data == Keys1(g, {"leaf", "text", "alias", "strict", "deep", "two"})
      two == Keys1(g, {"two"})
      viafn == Keys1(g, {"fn"})
  IN [g |-> g, env |-> EmptyFn,
      fns |-> [x \in {FnName(viafn[j]) : j \in 1..Len(viafn)} |->
                 LET k == CHOOSE k \in 1..NKeys : x = FnName(k) IN Fn("lookup_key", "lookupfor", Name(g[k].to[1]), Mp(<< <<Name(k), Null>> >>))],
      files |-> <<CfgFile([j \in 1..Len(viafn) |-> Mp(<< <<"name", Str("f" \o ToString(j))>>, <<"lookup_key", Str(FnName(viafn[j]))>> >>)]
                          \o <<Mp(<< <<"name", Str("one")>>, <<"path", Str("one.yaml")>> >>), Mp(<< <<"name", Str("two")>>, <<"path", Str("two.yaml")>> >>)>>),
                  F("data/one.yaml", Doc(Mp([j \in 1..Len(data) |-> <<Name(data[j]), Content(g, data[j])>>]
                     \o << <<"lookup_options", Mp([j \in 1..Len(two) |-> <<Name(two[j]), Mp(<< <<"merge", Str("unique")>> >>)>>])>> >>))),
                  F("data/two.yaml", Doc(Mp([j \in 1..Len(two) |-> <<Name(two[j]), Str("2" \o Ref(g[two[j]].to[1], 1))>>])))>>]
ScopeOf(g) == Mp(<< <<"v", IF g[Var].st = "leaf" THEN Str("v") ELSE Str("(" \o RefsOf(g[Var].to, 1) \o ")")>> >>)
KeySeq == [j \in 1..NKeys |-> L(Name(j))]
Plan(g) == <<[op |-> "session", s |-> "s", root |-> "/R", scope |-> ScopeOf(g)], NInv>> \o KeySeq \o [j \in 1..NKeys |-> KeySeq[NKeys + 1 - j]]
Init == \E g \in Graphs : MCInit(World(g))
Next == Follow(Plan(w.g), "")
MCView == <<w.g, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
To(g, n) == {g[n].to[j] : j \in 1..Len(g[n].to)}
RECURSIVE Reach(_, _)
Reach(g, set) == LET more == set \cup UNION {To(g, n) : n \in set} IN IF more = set THEN set ELSE Reach(g, more)
After(g, n) == Reach(g, To(g, n))
Cyclic(g, n) == \E m \in {n} \cup After(g, n) : m \in After(g, m)
RECURSIVE Unfold(_, _), UnfoldAll(_, _)
UnfoldAll(g, to) == IF Len(to) = 0 THEN "" ELSE Render(Unfold(g, to[1])) \o UnfoldAll(g, Tail(to))
Unfold(g, n) ==
  LET c == g[n] IN
  CASE c.st = "leaf" -> Str(Name(n)) [] c.st = "text" -> Str((IF n = Var THEN "(" ELSE "<") \o UnfoldAll(g, c.to) \o (IF n = Var THEN ")" ELSE ">"))
    [] c.st \in {"alias", "strict", "fn"} -> Unfold(g, c.to[1])
    [] c.st = "deep" -> Mp(<< <<"m", Arr(<<IntV(1), Str(UnfoldAll(g, c.to))>>)>> >>)
    [] c.st = "two" -> Arr(<<Str("1" \o UnfoldAll(g, c.to)), Str("2" \o UnfoldAll(g, c.to))>>)
NodeOf(key) == CHOOSE n \in 1..NKeys : Name(n) = key
Terminates ==
  LastIs("lookup") =>
    LET n == NodeOf(LastOp.key) IN
    IF Cyclic(w.g, n) THEN out.r = "err" ELSE out.r = "ok" /\ out.v = Unfold(w.g, n)
=============================================================================
