------------------------------ MODULE MC_Config ------------------------------
(***************************************************************************)
(* P09: every interleaving of the lookups of a few invocations, with a     *)
(* file that changes between the loads.                                    *)
(***************************************************************************)
EXTENDS ConfigStore, TLC
CONSTANT MaxCalls
VARIABLES calls, readBad, loads
vars == <<cvars, calls, readBad, loads>>
Init == CInit /\ calls = [t \in Threads |-> 0] /\ readBad = {} /\ loads = 0
Start(t) == /\ calls[t] < MaxCalls
            /\ calls' = [calls EXCEPT ![t] = @ + 1]
            /\ readBad' = readBad \ {t} /\ UNCHANGED loads
            /\ \E fresh \in {FALSE, TRUE} : Call(t, fresh)
Reading(t, c) == /\ Read(t, c)
                 /\ readBad' = IF c = Bad THEN readBad \cup {t} ELSE readBad
                 /\ loads' = IF c = Bad THEN loads ELSE loads + 1
                 /\ UNCHANGED calls
Other(t) == (Internal(t) \/ Open(t) \/ Return(t)) /\ UNCHANGED <<calls, readBad, loads>>
Next == \E t \in Threads : Start(t) \/ Other(t) \/ \E c \in Contents : Reading(t, c)
Progress(t) == Other(t) \/ \E c \in Contents : Reading(t, c)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Progress(t))

OneLoader == Cardinality({t \in Threads : pc[t] \in {"open", "read"}}) <= 1
LoadedOnce == loads <= 1 /\ (loads = 1 <=> cfg # None)
SameConfig == \A t \in Threads : mine[t] # None => mine[t] = cfg
\* an error is that of a load by the caller itself, or of a config that nobody can resolve
OwnFailure == \A t \in Threads : pc[t] = "return" /\ res[t] = Error => t \in readBad \/ cfg = Unresolvable
Delivered == \A t \in Threads : pc[t] = "return" /\ res[t] # Error => res[t] = cfg /\ cfg \in 1..9
Settled == [][cfg # None => cfg' = cfg]_vars
Terminates == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
Symm == Permutations(Threads)
=============================================================================
