----------------------------- MODULE MC_Options -----------------------------
(***************************************************************************)
(* P03: which strategy is used.  Every combination of the lookup_options   *)
(* that the levels give for a key and of the strategy that is requested.   *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Levels
No0 == [none |-> 1]
Opts == << No0,
  Mp(<< <<"merge", Str("unique")>> >>),
  Mp(<< <<"merge", Mp(<< <<"strategy", Str("hash")>> >>)>> >>),
  Mp(<< <<"merge", Mp(<< <<"strategy", Str("deep")>>, <<"x", IntV(1)>> >>)>> >>),
  Mp(<< <<"merge", Str("bogus")>> >>),
  Mp(<< <<"convert_to", Str("string")>> >>) >>
Reqs == << No0, Mp(<< <<"merge", Str("deep")>> >>), Mp(<< <<"merge", Mp(<< <<"strategy", Str("first")>> >>)>> >>),
           Mp(<< <<"merge", Str("nosuch")>> >>), Mp(<< <<"other", Str("unique")>> >>) >>
Combos == [1..Levels -> 1..Len(Opts)]
RECURSIVE CName(_, _)
CName(p, j) == IF j > Len(p) THEN "" ELSE ToString(p[j]) \o CName(p, j + 1)
KeyName(p) == "k" \o CName(p, 1)
\* all keys have the same data, so that only options make a difference
DataAt(j) == Mp(<< <<"a", IntV(j)>>, <<"n", Mp(<< <<"x" \o ToString(j), IntV(j)>>, <<"c", Arr(<<IntV(j)>>)>> >>)>> >>)
\* sect: the levels that have a lookup_options section at all
FileAt(j, sect) ==
  LET ps == SeqOf(Combos)
      qs == SeqOf({p \in Combos : p[j] # 1})
      data == [q \in 1..Len(ps) |-> <<KeyName(ps[q]), DataAt(j)>>]
      lo == <<"lookup_options", Mp([q \in 1..Len(qs) |-> <<KeyName(qs[q]), Opts[qs[q][j]]>>])>>
  IN Mp(IF j \in sect THEN <<lo>> \o data ELSE data)
Entry(j) == Mp(<< <<"name", Str("l" \o ToString(j))>>, <<"path", Str("f" \o ToString(j) \o ".yaml")>> >>)
World(sect, top) ==
  [sect |-> sect, top |-> top,
   files |-> <<CfgFile([j \in 1..Levels |-> Entry(j)])>> \o
             [j \in 1..Levels |-> F("data/f" \o ToString(j) \o ".yaml", Doc(FileAt(j, sect)))],
   env |-> EmptyFn, fns |-> EmptyFn]
Sess(top) == IF top = "mux" THEN [op |-> "session", s |-> "s", root |-> "/R", top |-> "mux", provs |-> <<"config", "environment">>]
             ELSE NSession
VARIABLE plan
Req(k, r) == IF r = 1 THEN L(k) ELSE LO(k, Reqs[r])
PlanOf(x, r) ==
  LET ps == SeqOf(Combos) IN
  <<Sess(x.top), NInv>> \o [q \in 1..Len(ps) |-> Req(KeyName(ps[q]), r)]
     \* a dotted key is governed by the options of its root
     \o [q \in 1..Len(ps) |-> Req(KeyName(ps[q]) \o ".n", r)]
     \o <<Req("lookup_options", r), Req("lookup_options." \o KeyName(ps[1]), r), Req("'lookup_options'", r)>>
Init == \E sect \in SUBSET (1..Levels), top \in {"config", "mux"} :
          \E r \in 1..Len(Reqs) : LET x == World(sect, top) IN MCInit(x) /\ plan = [r |-> r, ops |-> PlanOf(x, r)]
Next == Follow(plan.ops, "") /\ plan' = plan
MCView == <<w.sect, w.top, plan.r, Len(hist)>>

(***************************************************************************)
(* The strategy that must have been used                                   *)
(***************************************************************************)
Strat(o) == LET m == SGet(o, "merge") IN IF IsStr(m) THEN m.s ELSE SGet(m, "strategy").s
Effective(p, r) ==
  LET js == {j \in w.sect : p[j] \in {2, 3, 4, 5}} IN
  IF r \in {2, 3, 4} THEN Strat(Reqs[r])
  ELSE IF js = {} THEN "first"
  ELSE LET h == CHOOSE j \in js : \A i \in js : j <= i IN Strat(Opts[p[h]])
Converted(p) == \E j \in w.sect : p[j] = 6
RECURSIVE Lower(_, _)
Lower(j, n) == IF j > n THEN <<>> ELSE <<DataAt(j)>> \o Lower(j + 1, n)
All == Lower(1, Levels)
NS(j) == <<"x" \o ToString(j), IntV(j)>>
Expected(st) ==
  CASE st = "first" -> All[1]
    [] st = "hash" -> Mp(<< <<"a", IntV(1)>>, <<"n", SGet(All[1], "n")>> >>)
    [] st = "unique" -> Arr(All)
    [] st = "deep" -> Mp(<< <<"a", IntV(1)>>,
                            <<"n", Mp([j \in 1..Levels |-> NS(j)] \o << <<"c", Arr([j \in 1..Levels |-> IntV(j)])>> >>)>> >>)
Hidden == LastIs("lookup") /\ (LastOp.key = "'lookup_options'" \/ HasPrefix(LastOp.key, "lookup_options")) => out.r = "nf"
Selected ==
  (LastIs("lookup") /\ HasPrefix(LastOp.key, "k")) =>
    LET dotted == HasSuffix(LastOp.key, ".n")
        nm == IF dotted THEN Upto(LastOp.key, Len(LastOp.key) - 2) ELSE LastOp.key
        p == CHOOSE p \in Combos : KeyName(p) = nm
        st == Effective(p, plan.r)
    IN IF st \notin {"first", "hash", "unique", "deep"} THEN out.r = "err"
       ELSE IF Converted(p) THEN (IF dotted THEN out.r = "nf" ELSE out.r = "ok" /\ IsStr(out.v))
       ELSE IF ~dotted THEN out.r = "ok" /\ VEq(out.v, Expected(st))
       ELSE IF st = "unique" THEN out.r = "nf"
       ELSE out.r = "ok" /\ VEq(out.v, SGet(Expected(st), "n"))
=============================================================================
