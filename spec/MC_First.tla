------------------------------ MODULE MC_First ------------------------------
(***************************************************************************)
(* P01: first found precedence.  Exhaustive over the shapes of a hierarchy *)
(* (levels x locations), the kinds of the levels, the locations that don't *)
(* exist, and for every key the set of slots that define it with an        *)
(* ordinary or an "empty" value.                                           *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT MaxSlots
Shapes == {s \in UNION {[1..n -> 1..3] : n \in 1..MaxSlots} : Sum(s) <= MaxSlots}
Kinds == {"yaml", "json", "key", "dig", "hash"}
Kinded(s) == {k \in [1..Len(s) -> Kinds] :
                /\ \A j \in 1..Len(s) : s[j] > 1 => k[j] = "yaml"
                \* one level that isn't yaml, or all of the same kind
                /\ \/ Cardinality({j \in 1..Len(s) : k[j] # "yaml"}) <= 1
                   \/ \A j \in 1..Len(s) : k[j] = k[1]}
\* what a key is in a slot: 0 absent, 1 a value of its own, 2 an empty value
N(s) == Sum(s)
Placements(n) == [1..n -> 0..2]
RECURSIVE PName(_, _)
PName(p, j) == IF j > Len(p) THEN "" ELSE ToString(p[j]) \o PName(p, j + 1)
KeyName(p) == "k" \o PName(p, 1)
Empties == <<Null, Bool(FALSE), Str(""), IntV(0), Arr(<<>>), EmptyMap>>
ValAt(p, j) == IF p[j] = 1 THEN Str("from slot " \o ToString(j)) ELSE Empties[((j + Sum(p)) % 6) + 1]
DataOf(n, j) == LET ps == SeqOf({p \in Placements(n) : p[j] # 0})
                IN Mp([q \in 1..Len(ps) |-> <<KeyName(ps[q]), ValAt(ps[q], j)>>])

\* the slots of level l: first slot number
Base(s, l) == Sum(SubSeq(s, 1, l - 1))
PathOf(k, j) == "f" \o ToString(j) \o (IF k = "json" THEN ".json" ELSE ".yaml")
Entry(s, k, l) ==
  LET nm == <<"name", Str("level " \o ToString(l))>> IN
  IF k \in {"yaml", "json"}
  THEN LET loc == IF s[l] = 1 THEN <<"path", Str(PathOf(k, Base(s, l) + 1))>>
                  ELSE <<"paths", Strs([q \in 1..s[l] |-> PathOf(k, Base(s, l) + q)])>>
       IN Mp(IF k = "json" THEN <<nm, <<"data_hash", Str("json_data")>>, loc>> ELSE <<nm, loc>>)
  ELSE Mp(<<nm, <<CASE k = "key" -> "lookup_key" [] k = "dig" -> "data_dig" [] OTHER -> "data_hash", Str("fn" \o ToString(l))>> >>)
World(s, k, miss, top) ==
  LET n == N(s)
      fileSlots == {j \in 1..n : j \notin miss /\ \E l \in 1..Len(s) : j > Base(s, l) /\ j <= Base(s, l) + s[l] /\ k[l] \in {"yaml", "json"}}
      kindAt(j) == k[CHOOSE l \in 1..Len(s) : j > Base(s, l) /\ j <= Base(s, l) + s[l]]
      fnLevels == {l \in 1..Len(s) : k[l] \in {"key", "dig", "hash"}}
  IN [s |-> s, k |-> k, miss |-> miss, top |-> top,
      files |-> <<CfgFile([l \in 1..Len(s) |-> Entry(s, k[l], l)])>> \o
                LET js == SeqOf(fileSlots) IN [q \in 1..Len(js) |-> F("data/" \o PathOf(kindAt(js[q]), js[q]), Doc(DataOf(n, js[q])))],
      env |-> EmptyFn,
      fns |-> [x \in {"fn" \o ToString(l) : l \in fnLevels} |->
                 LET l == CHOOSE l \in fnLevels : x = "fn" \o ToString(l)
                     kk == CASE k[l] = "key" -> "lookup_key" [] k[l] = "dig" -> "data_dig" [] OTHER -> "data_hash"
                 IN Fn(kk, "table", "", DataOf(n, Base(s, l) + 1))]]
Worlds == UNION {UNION {UNION { {World(s, k, m, t) : t \in IF Len(s) = 1 /\ k[1] = "yaml" THEN {"config", "mux"} ELSE {"config"}}
                    : m \in {ms \in SUBSET (1..N(s)) :
                      \* functions are always there
                      \A l \in 1..Len(s) : k[l] \in {"key", "dig", "hash"} => (Base(s, l) + 1) \notin ms}}
             : k \in Kinded(s)} : s \in Shapes}
Plan(x) ==
  LET ps == SeqOf(Placements(N(x.s)))
      ses == IF x.top = "mux" THEN [op |-> "session", s |-> "s", root |-> "/R", top |-> "mux", provs |-> <<"config", "environment">>]
             ELSE NSession
  IN <<ses, NInv>> \o [q \in 1..Len(ps) |-> L(KeyName(ps[q]))] \o <<L("nosuch")>>

Init == \E x \in Worlds : MCInit(x)
Next == Follow(Plan(w), "")
MCView == <<w.s, w.k, w.miss, w.top, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
Defs(p) == {j \in 1..Len(p) : p[j] # 0 /\ j \notin w.miss}
FirstFound ==
  (LastIs("lookup") /\ LastOp.key # "nosuch") =>
    LET p == CHOOSE p \in Placements(N(w.s)) : KeyName(p) = LastOp.key
        d == Defs(p)
    IN IF d = {} THEN out.r = "nf"
       ELSE LET j == CHOOSE j \in d : \A i \in d : j <= i
            IN out.r = "ok" /\ out.v = ValAt(p, j)
NotFound == (LastIs("lookup") /\ LastOp.key = "nosuch") => out.r = "nf"
=============================================================================
