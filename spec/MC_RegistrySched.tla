--------------------------- MODULE MC_RegistrySched ---------------------------
(***************************************************************************)
(* P12: the orders in which lookups and requests to end can be issued and  *)
(* starts can be answered when everything else settles in between.         *)
(***************************************************************************)
EXTENDS PluginRegistry, Sequences, TLC, Json
CONSTANTS MaxCalls, MaxStarts
VARIABLES calls, sched
vars == <<rvars, calls, sched>>
Init == RInit /\ calls = [t \in Threads |-> 0] /\ sched = <<>>
Settling == \E t \in Threads : Internal(t) \/ Return(t) \/ (\E e \in Exes : Start(t, e))
Busy(t) == ENABLED (Internal(t) \/ Return(t) \/ (\E e \in Exes : Start(t, e)))
Quiet == \A t \in Threads : ~Busy(t)
Act(a) == sched' = Append(sched, a)
CallAct ==
  \E t \in Threads, e \in Exes \cup {None} :
    /\ calls[t] < MaxCalls
    /\ \A u \in Threads : u < t => calls[u] > 0
    /\ (\A u \in Threads : calls[u] = 0) => e = 1
    /\ e = None => \E p \in DOMAIN exeof : TRUE
    /\ Call(t, e) /\ calls' = [calls EXCEPT ![t] = @ + 1]
    /\ Act([a |-> "call", t |-> t, c |-> e])
\* the last possible start succeeds
SayAct ==
  \E t \in Threads, e \in Exes, k \in {Ok, Bad} :
    /\ Len(exeof) >= MaxStarts => k = Ok
    /\ Announce(t, e, k) /\ UNCHANGED calls
    /\ Act([a |-> "say", t |-> 0, c |-> k])
Final == \A t \in Threads : pc[t] = "idle" /\ calls[t] = MaxCalls
Next == IF ~Quiet THEN Settling /\ UNCHANGED <<calls, sched>>
        ELSE IF Final THEN FALSE
        ELSE CallAct \/ SayAct
View == <<pc, want, proc, res, load, lock, reg, fns, alive, exeof, calls>>
Show == (Quiet /\ Final) => PrintT("SCHEDULE " \o ToJson(sched))
NeverStuck == Quiet => (Final \/ \E t \in Threads : pc[t] = "await" \/ (pc[t] = "idle" /\ calls[t] < MaxCalls))
=============================================================================
