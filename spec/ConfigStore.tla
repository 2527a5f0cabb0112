----------------------------- MODULE ConfigStore -----------------------------
(***************************************************************************)
(* How the concurrent invocations of a session come by its configuration.  *)
(* The first one to need it puts a lock in the store of the session, loads *)
(* the file and stores what it found; the others wait for the lock and     *)
(* look again.  When a load fails the lock is withdrawn, the failure is    *)
(* that of the caller, and those that waited start over.                   *)
(*                                                                         *)
(* The file changes at will: what a load reads is any of Contents: a       *)
(* version n > 0, Bad (can't be loaded), or Unresolvable (can be loaded,   *)
(* but each invocation fails to resolve it).                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Contents
Bad == 90
Unresolvable == 91
None == 0
Error == 99

VARIABLES
  pc,    \* thread -> what it is about to do
  mine,  \* thread -> the config that its invocation has resolved
  res,   \* thread -> the outcome of its call
  cfg,   \* the config of the session
  lock,  \* the lock in the store of the session
  held,  \* the locks that are held
  wait,  \* thread -> the lock that it waits for or holds
  made   \* number of locks made
cvars == <<pc, mine, res, cfg, lock, held, wait, made>>

CInit ==
  /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> None] /\ res = [t \in Threads |-> None]
  /\ cfg = None /\ lock = None /\ held = {} /\ wait = [t \in Threads |-> None] /\ made = 0

Go(t, s) == pc' = [pc EXCEPT ![t] = s]
\* a lookup, of a new invocation or of the one used before
Call(t, fresh) ==
  /\ pc[t] = "idle"
  /\ IF fresh \/ mine[t] = None
     THEN Go(t, "check") /\ mine' = [mine EXCEPT ![t] = None] /\ UNCHANGED res
     ELSE Go(t, "return") /\ res' = [res EXCEPT ![t] = mine[t]] /\ UNCHANGED mine
  /\ UNCHANGED <<cfg, lock, held, wait, made>>
Check(t) ==
  /\ pc[t] = "check"
  /\ Go(t, IF cfg # None THEN "resolve" ELSE "lock")
  /\ UNCHANGED <<mine, res, cfg, lock, held, wait, made>>
Lock(t) ==
  /\ pc[t] = "lock"
  /\ IF lock = None
     THEN /\ made' = made + 1 /\ lock' = made + 1 /\ held' = held \cup {made + 1}
          /\ wait' = [wait EXCEPT ![t] = made + 1]
          /\ Go(t, "open")
     ELSE /\ wait' = [wait EXCEPT ![t] = lock]
          /\ Go(t, "wait")
          /\ UNCHANGED <<made, lock, held>>
  /\ UNCHANGED <<mine, res, cfg>>
Wake(t) ==
  /\ pc[t] = "wait" /\ wait[t] \notin held
  /\ Go(t, IF cfg # None THEN "resolve" ELSE "lock")
  /\ UNCHANGED <<mine, res, cfg, lock, held, wait, made>>
Open(t) ==
  /\ pc[t] = "open" /\ Go(t, "read")
  /\ UNCHANGED <<mine, res, cfg, lock, held, wait, made>>
Read(t, c) ==
  /\ pc[t] = "read"
  /\ IF c = Bad
     THEN /\ lock' = None /\ res' = [res EXCEPT ![t] = Error] /\ Go(t, "unlock") /\ UNCHANGED cfg
     ELSE /\ cfg' = c /\ res' = [res EXCEPT ![t] = None] /\ Go(t, "unlock") /\ UNCHANGED lock
  /\ UNCHANGED <<mine, held, wait, made>>
Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ held' = held \ {wait[t]}
  /\ Go(t, IF res[t] = Error THEN "return" ELSE "resolve")
  /\ UNCHANGED <<mine, res, cfg, lock, wait, made>>
Resolve(t) ==
  /\ pc[t] = "resolve"
  /\ IF cfg = Unresolvable THEN res' = [res EXCEPT ![t] = Error] /\ UNCHANGED mine
     ELSE res' = [res EXCEPT ![t] = cfg] /\ mine' = [mine EXCEPT ![t] = cfg]
  /\ Go(t, "return")
  /\ UNCHANGED <<cfg, lock, held, wait, made>>
Return(t) ==
  /\ pc[t] = "return" /\ Go(t, "idle")
  /\ UNCHANGED <<mine, res, cfg, lock, held, wait, made>>

Internal(t) == Check(t) \/ Lock(t) \/ Wake(t) \/ Unlock(t) \/ Resolve(t)
=============================================================================
