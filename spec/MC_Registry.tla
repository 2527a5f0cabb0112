----------------------------- MODULE MC_Registry -----------------------------
(***************************************************************************)
(* P12: every interleaving of the lookups of several goroutines and their  *)
(* requests to end the processes.                                          *)
(***************************************************************************)
EXTENDS PluginRegistry, TLC
CONSTANT MaxCalls
VARIABLES calls, clean
vars == <<rvars, calls, clean>>
\* clean: thread -> nothing was ended and no start failed since it began its call, and what it needs hadn't been ended before
Init == RInit /\ calls = [t \in Threads |-> 0] /\ clean = [t \in Threads |-> TRUE]
Fit(e) == e = None \/ ((fns[e] = None \/ fns[e] \in alive) /\ \A u \in Threads : pc[u] = "keep" /\ want[u] = e => proc[u] \in alive)
Begin(t) == /\ calls[t] < MaxCalls /\ calls' = [calls EXCEPT ![t] = @ + 1]
            /\ \E e \in Exes \cup {None} : Call(t, e) /\ clean' = [clean EXCEPT ![t] = Fit(e) /\ \A u \in Threads : pc[u] \notin {"endall", "ending", "failed"}]
Say(t) == \E e \in Exes, k \in {Ok, Bad} : Announce(t, e, k) /\ clean' = IF k = Bad THEN [u \in Threads |-> clean[u] /\ u # t] ELSE clean
Ending(t) == (EndAll(t) \/ (\E e \in Exes : End(t, e)) \/ Ended(t)) /\ clean' = [u \in Threads |-> clean[u] /\ u = t]
Other(t) == (Load(t) \/ Find(t) \/ Register(t) \/ Failed(t) \/ Keep(t) \/ Ask(t) \/ Respond(t) \/ Return(t) \/ \E e \in Exes : Start(t, e)) /\ UNCHANGED clean
Next == \E t \in Threads : Begin(t) \/ (Say(t) /\ UNCHANGED calls) \/ (Ending(t) /\ UNCHANGED calls) \/ (Other(t) /\ UNCHANGED calls)
Progress(t) == (Say(t) \/ Ending(t) \/ Other(t)) /\ UNCHANGED calls
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Progress(t))

OnePerExe == \A e \in Exes : Cardinality({p \in alive : exeof[p] = e}) <= 1
\* a process runs only when it is in the registry or about to be
Owned == \A p \in alive : reg[exeof[p]] = p \/ \E t \in Threads : proc[t] = p /\ pc[t] \in {"await", "register", "failed"}
\* a request to end them leaves nothing running
NothingLeft == \A t \in Threads : pc[t] = "ending" /\ (\A e \in Exes : reg[e] = None) => alive = {}
\* lookups yield what the executable provides, and fail for a reason
Delivered == \A t \in Threads : pc[t] = "return" => res[t] \in {want[t], Error, Fine} /\ (res[t] = Fine <=> want[t] = None)
Reason == \A t \in Threads : pc[t] = "return" /\ res[t] = Error => ~clean[t]
Terminates == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
Symm == Permutations(Threads)
=============================================================================
