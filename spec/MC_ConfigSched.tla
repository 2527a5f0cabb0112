--------------------------- MODULE MC_ConfigSched ---------------------------
(***************************************************************************)
(* P09: the orders in which lookups can be started and loads can be served *)
(* when everything else settles in between.  Each one is performed by the  *)
(* real code, reading its config from a pipe.                              *)
(***************************************************************************)
EXTENDS ConfigStore, Sequences, TLC, Json
CONSTANTS MaxCalls, MaxReads
VARIABLES calls, sched
vars == <<cvars, calls, sched>>
Reads == Len(SelectSeq(sched, LAMBDA a : a.a = "serve"))
Init == CInit /\ calls = [t \in Threads |-> 0] /\ sched = <<>>
Busy(t) == pc[t] \in {"check", "lock", "open", "unlock", "resolve", "return"} \/ (pc[t] = "wait" /\ wait[t] \notin held)
Quiet == \A t \in Threads : ~Busy(t)
Settle == /\ \E t \in Threads : Internal(t) \/ Open(t) \/ Return(t)
          /\ UNCHANGED <<calls, sched>>
Act(a) == sched' = Append(sched, a)
CallAct ==
  \E t \in Threads, fresh \in {FALSE, TRUE} :
    /\ calls[t] < MaxCalls
    /\ fresh => calls[t] > 0
    /\ \A u \in Threads : u < t => calls[u] > 0
    /\ Call(t, fresh) /\ calls' = [calls EXCEPT ![t] = @ + 1]
    /\ Act([a |-> "call", t |-> t, fresh |-> fresh, c |-> 0])
ServeAct ==
  \E t \in Threads, c \in {Reads + 1, Bad, Unresolvable} :
    /\ c \in {Bad} => Reads < MaxReads - 1
    /\ Read(t, c) /\ UNCHANGED calls
    /\ Act([a |-> "serve", t |-> 0, fresh |-> FALSE, c |-> c])
Final == \A t \in Threads : pc[t] = "idle" /\ calls[t] = MaxCalls
Next == IF ~Quiet THEN Settle
        ELSE IF Final THEN FALSE
        ELSE (CallAct \/ ServeAct)
View == <<pc, mine, cfg, sched>>
\* printed when reached
Show == (Quiet /\ Final) => PrintT("SCHEDULE " \o ToJson(sched))
NeverStuck == Quiet => (Final \/ \E t \in Threads : pc[t] = "read" \/ (pc[t] = "idle" /\ calls[t] < MaxCalls))
=============================================================================
