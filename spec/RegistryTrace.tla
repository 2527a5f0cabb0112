---------------------------- MODULE RegistryTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the concurrent use of plugins in one session:     *)
(* call(t, c), started(c), said(c, k), ret(t, c), and in the end left(c,   *)
(* k), the number of processes that still run.  A history is a behaviour   *)
(* of PluginRegistry when the steps in between can be filled in.           *)
(***************************************************************************)
EXTENDS PluginRegistry, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l
vars == <<rvars, n, l>>
Evs == Trace[n].events
TInit == RInit /\ n \in 1..Len(Trace) /\ l = 0
Consume ==
  /\ l < Len(Evs)
  /\ LET e == Evs[l + 1] IN
     CASE e.e = "call" -> Call(e.t, e.c)
       [] e.e = "started" -> \E t \in Threads : Start(t, e.c)
       [] e.e = "said" -> \E t \in Threads : Announce(t, e.c, e.k)
       [] e.e = "ret" -> res[e.t] = e.c /\ Return(e.t)
       [] e.e = "left" -> Cardinality({p \in alive : exeof[p] = e.c}) = e.k /\ UNCHANGED rvars
       [] OTHER -> FALSE
  /\ l' = l + 1 /\ n' = n
  /\ IF l' = Len(Evs) THEN PrintT("DONE " \o ToString(n)) ELSE TRUE
Silent == (\E t \in Threads : Internal(t)) /\ UNCHANGED <<n, l>>
TNext == Consume \/ Silent
=============================================================================
