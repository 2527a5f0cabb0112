------------------------------ MODULE MC_Merge ------------------------------
(***************************************************************************)
(* P02: the merge strategies over all tuples of values from a pool, found  *)
(* at the slots (locations of levels) of a hierarchy.  The expected result *)
(* is stated by what the strategy promises: elements, keys and paths of    *)
(* the result in terms of those of the sources.                            *)
(***************************************************************************)
EXTENDS MCBase
CONSTANTS MaxSlots, PoolSize
Absent == [absent |-> 1]
A1 == IntV(1)
A2 == IntV(2)
A3 == Str("s")
Pool == << Absent,
  Arr(<<A2, A1, A2>>),
  Mp(<< <<"a", A1>>, <<"m", Mp(<< <<"x", A1>>, <<"l", Arr(<<A1>>)>> >>)>> >>),
  Mp(<< <<"b", Arr(<<A2>>)>>, <<"a", A2>>, <<"m", Mp(<< <<"y", A2>>, <<"l", Arr(<<A2, A1>>)>>, <<"x", Null>> >>)>> >>),
  A1,
  Arr(<<A1, Arr(<<A3, Arr(<<A2, A1>>)>>)>>),
  Arr(<<>>),
  Null,
  Mp(<< <<"m", Str("leaf")>>, <<"c", Mp(<<>>)>> >>),
  Arr(<<Mp(<< <<"a", A1>> >>), A1>>),
  Arr(<<Mp(<< <<"a", A1>> >>), Null>>),
  Str(""),
  EmptyMap >>
Vals == 1..PoolSize
Strats == <<"first", "unique", "hash", "deep">>

Shapes == {s \in UNION {[1..n -> 1..3] : n \in 1..MaxSlots} : Sum(s) <= MaxSlots}
NS(s) == Sum(s)
Base(s, l) == Sum(SubSeq(s, 1, l - 1))
RECURSIVE PName(_, _)
PName(p, j) == IF j > Len(p) THEN "" ELSE "_" \o ToString(p[j]) \o PName(p, j + 1)
KeyName(p) == "k" \o PName(p, 1)
Tuples(s) == [1..NS(s) -> Vals]
DataOf(s, j) == LET ps == SeqOf({p \in Tuples(s) : p[j] # 1}) IN Mp([q \in 1..Len(ps) |-> <<KeyName(ps[q]), Pool[ps[q][j]]>>])
PathOf(j) == "f" \o ToString(j) \o ".yaml"
Entry(s, l) == Mp(<< <<"name", Str("level " \o ToString(l))>>,
                     IF s[l] = 1 THEN <<"path", Str(PathOf(Base(s, l) + 1))>>
                     ELSE <<"paths", Strs([q \in 1..s[l] |-> PathOf(Base(s, l) + q)])>> >>)
World(s) ==
  [s |-> s, files |-> <<CfgFile([l \in 1..Len(s) |-> Entry(s, l)])>> \o
              [j \in 1..NS(s) |-> F("data/" \o PathOf(j), Doc(DataOf(s, j)))],
   env |-> EmptyFn, fns |-> EmptyFn]
\* one plan per value of the first slot, so that the plans can be explored in parallel
OptsOf(st) == IF st \in {"hash", "deep"} THEN Mp(<< <<"merge", Mp(<< <<"strategy", Str(st)>> >>)>> >>) ELSE Mp(<< <<"merge", Str(st)>> >>)
VARIABLE plan
PlanOf(s, a) ==
  LET ps == SeqOf({p \in Tuples(s) : p[1] = a})
      lk(p) == [j \in 1..4 |-> LO(KeyName(p), OptsOf(Strats[j]))] \o <<L(KeyName(p))>>
  IN <<NSession, NInv>> \o Cat2([q \in 1..Len(ps) |-> lk(ps[q])])
Init == \E s \in Shapes : MCInit(World(s)) /\ \E a \in Vals : plan = [a |-> a, ops |-> PlanOf(s, a)]
Next == Follow(plan.ops, "") /\ plan' = plan
MCView == <<w.s, plan.a, Len(hist)>>

(***************************************************************************)
(* What the strategies promise                                             *)
(***************************************************************************)
RECURSIVE Leaves(_)
Leaves(v) == IF IsArr(v) THEN Cat2([j \in 1..Len(v.a) |-> Leaves(v.a[j])]) ELSE <<v>>
First(sq, x) == CHOOSE j \in 1..Len(sq) : sq[j] = x /\ \A i \in 1..(j - 1) : sq[i] # x
\* r has each element of sq once, in the order of their first occurrences
UniqueOf(r, sq) ==
  /\ {r[j] : j \in 1..Len(r)} = {sq[j] : j \in 1..Len(sq)}
  /\ \A i, j \in 1..Len(r) : i < j => First(sq, r[i]) < First(sq, r[j])
KeysOf(v) == {v.m[j][1] : j \in 1..Len(v.m)}
At(v, k) == MGet(v, k)
Maps(vs) == SelectSeq(vs, LAMBDA v : IsMap(v))
Arrs(vs) == SelectSeq(vs, LAMBDA v : IsArr(v) /\ Len(v.a) > 0)
HashOf(r, vs) ==
  IF ~IsMap(vs[1]) THEN r = vs[1]
  ELSE LET ms == Maps(vs) IN
       /\ IsMap(r) /\ Len(r.m) = Cardinality(KeysOf(r))
       /\ KeysOf(r) = UNION {KeysOf(ms[j]) : j \in 1..Len(ms)}
       /\ \A k \in KeysOf(r) : LET j == CHOOSE j \in 1..Len(ms) : k \in KeysOf(ms[j]) /\ \A i \in 1..(j - 1) : k \notin KeysOf(ms[i])
                               IN At(r, k) = At(ms[j], k)
RECURSIVE DeepOf(_, _)
DeepOf(r, vs) ==
  IF IsMap(vs[1])
  THEN LET ms == Maps(vs) IN
       /\ IsMap(r) /\ Len(r.m) = Cardinality(KeysOf(r))
       /\ KeysOf(r) = UNION {KeysOf(ms[j]) : j \in 1..Len(ms)}
       /\ \A k \in KeysOf(r) : LET js == SelectSeq(ms, LAMBDA m : k \in KeysOf(m))
                               IN DeepOf(At(r, k), [j \in 1..Len(js) |-> At(js[j], k)])
  ELSE IF IsArr(vs[1])
  THEN LET as == Arrs(vs) IN
       IF Len(as) = 0 THEN r = vs[1]
       ELSE IF Len(as) = 1 THEN r = as[1]
       ELSE IsArr(r) /\ UniqueOf(r.a, Cat2([j \in 1..Len(as) |-> as[j].a]))
  ELSE r = vs[1]
\* r is the result of merging what was found (vs) at one of several places
Promise(st, r, vs) ==
  CASE st = "first" -> r = vs[1]
    [] st = "unique" -> IsArr(r) /\ UniqueOf(r.a, Cat2([j \in 1..Len(vs) |-> Leaves(vs[j])]))
    [] st = "hash" -> HashOf(r, vs)
    [] st = "deep" -> DeepOf(r, vs)
\* there is only one place where it can be found
PromiseOne(st, r, v) == IF st = "unique" /\ IsArr(v) THEN IsArr(r) /\ UniqueOf(r.a, Leaves(v)) ELSE r = v
TupleOf(op) == CHOOSE p \in Tuples(w.s) : KeyName(p) = op.key
StratOf(op) == IF "opts" \in DOMAIN op THEN StratName(SGet(op.opts, "merge")) ELSE "first"
LevelOf(s, j) == CHOOSE l \in 1..Len(s) : j > Base(s, l) /\ j <= Base(s, l) + s[l]
\* all of the slots are levels of their own or locations of one level
Flat(s) == Len(s) = 1 \/ \A l \in 1..Len(s) : s[l] = 1
Found1(p) == LET js == SelectSeq([j \in 1..Len(p) |-> j], LAMBDA j : p[j] # 1) IN [j \in 1..Len(js) |-> Pool[p[js[j]]]]
Merged ==
  LastIs("lookup") =>
    LET p == TupleOf(LastOp)
        st == StratOf(LastOp)
        vs == Found1(p)
    IN IF Len(vs) = 0 THEN out.r = "nf"
       ELSE /\ out.r = "ok"
            /\ IF NS(w.s) = 1 THEN PromiseOne(st, out.v, vs[1])
               ELSE (Flat(w.s) \/ st \in {"first", "unique"}) => Promise(st, out.v, vs)
Unaltered == files = FileFn(w.files)
=============================================================================
