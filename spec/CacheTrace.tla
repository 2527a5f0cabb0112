----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* The provider cache under concurrency.  Each call takes effect on one    *)
(* key at a time, at some moment between call and return: storing or       *)
(* reading one entry is atomic, storing several entries and enumerating    *)
(* them are sequences of such steps.  A recorded history of calls and      *)
(* returns is a behaviour when there are such moments that explain all     *)
(* that was returned (for single entries: it is linearizable).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  n,     \* the history
  l,     \* events consumed so far
  store, \* [session, key] -> value
  todo   \* thread -> steps of its current operation that haven't been taken
vars == <<n, l, store, todo>>

Evs(x) == Trace[x].events
\* the return of the call at position c
RetOf(x, c) == Evs(x)[CHOOSE j \in 1..Len(Evs(x)) : Evs(x)[j].e = "ret" /\ Evs(x)[j].c = c]
HistKeys(x) == UNION {(IF Evs(x)[j].op \in {"put", "get"} THEN {Evs(x)[j].k} ELSE {}) \cup DOMAIN Evs(x)[j].m : j \in 1..Len(Evs(x))}
\* the steps of an operation; r is what was returned, -1: nothing
StepsOf(x, c) ==
  LET e == Evs(x)[c]
      ret == RetOf(x, c)
  IN CASE e.op = "put" -> {[a |-> "swap", k |-> e.k, v |-> e.v, r |-> ret.r]}
       [] e.op = "get" -> {[a |-> "read", k |-> e.k, v |-> 0, r |-> ret.r]}
       [] e.op = "all" -> {[a |-> "write", k |-> k, v |-> e.m[k], r |-> 0] : k \in DOMAIN e.m}
       [] e.op = "entries" -> {[a |-> "read", k |-> k, v |-> 0, r |-> IF k \in DOMAIN ret.m THEN ret.m[k] ELSE -1] : k \in HistKeys(x)}
TInit == /\ n \in 1..Len(Trace) /\ l = 0
         /\ store = [s \in 1..2 |-> [k \in HistKeys(n) |-> -1]]
         /\ todo = [t \in 1..Len(Trace[n].threads) |-> [s |-> 1, x |-> {}]]
Consume ==
  /\ l < Len(Evs(n))
  /\ LET e == Evs(n)[l + 1] IN
     /\ IF e.e = "call" THEN todo' = [todo EXCEPT ![e.t] = [s |-> e.s, x |-> StepsOf(n, l + 1)]]
        ELSE /\ todo[e.t].x = {}
             \* an enumeration visits each entry once
             /\ (e.op = "entries" => e.n = Cardinality(DOMAIN e.m))
             /\ todo' = todo
  /\ l' = l + 1
  /\ IF l' = Len(Evs(n)) THEN PrintT("DONE " \o ToString(n)) ELSE TRUE
  /\ UNCHANGED <<n, store>>
Take ==
  \E t \in DOMAIN todo : \E p \in todo[t].x :
    LET s == todo[t].s
        cur == store[s][p.k]
    IN /\ p.a \in {"swap", "read"} => cur = p.r
       /\ store' = IF p.a = "read" THEN store ELSE [store EXCEPT ![s][p.k] = p.v]
       /\ todo' = [todo EXCEPT ![t].x = @ \ {p}]
       /\ UNCHANGED <<n, l>>
TNext == Consume \/ Take
=============================================================================
