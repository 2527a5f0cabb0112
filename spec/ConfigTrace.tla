----------------------------- MODULE ConfigTrace -----------------------------
(***************************************************************************)
(* Recorded histories of concurrent lookups of one session whose config is *)
(* a pipe: call(t, fresh), open (somebody began to read), serve(c), and    *)
(* ret(t, r).  A history is a behaviour of ConfigStore when the steps in   *)
(* between can be filled in.                                               *)
(***************************************************************************)
EXTENDS ConfigStore, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l
vars == <<cvars, n, l>>
Evs == Trace[n].events
TInit == CInit /\ n \in 1..Len(Trace) /\ l = 0
Consume ==
  /\ l < Len(Evs)
  /\ LET e == Evs[l + 1] IN
     CASE e.e = "call" -> Call(e.t, e.fresh)
       [] e.e = "open" -> \E t \in Threads : Open(t)
       [] e.e = "serve" -> \E t \in Threads : Read(t, e.c)
       [] e.e = "ret" -> res[e.t] = e.c /\ Return(e.t)
       [] OTHER -> FALSE
  /\ l' = l + 1 /\ n' = n
  /\ IF l' = Len(Evs) THEN PrintT("DONE " \o ToString(n)) ELSE TRUE
Silent == (\E t \in Threads : Internal(t)) /\ UNCHANGED <<n, l>>
TNext == Consume \/ Silent
=============================================================================
