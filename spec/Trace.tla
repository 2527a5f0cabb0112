------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions against HieraSession.  Each line of   *)
(* the trace file is one scenario with the outcomes observed on the real   *)
(* code: [id, env, fns, files, ops, obs].  Every operation must be an      *)
(* action of the specification with exactly the observed outcome.  What is *)
(* compared besides the outcome is chosen per scenario (cmp: "l" the       *)
(* explain log, "c" the calls of in-process functions).                    *)
(***************************************************************************)
EXTENDS HieraSession, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l
TView == <<n, l>>

FilesOf(ps) == [p \in {ps[j][1] : j \in 1..Len(ps)} |-> ps[CHOOSE j \in 1..Len(ps) : ps[j][1] = p][2]]

TInit == /\ n \in 1..Len(Trace)
         /\ l = 0
         /\ InitWith(EmptyFn, EmptyFn, EmptyFn)
\* the world of the scenario
TLoad == /\ l = 0
         /\ l' = 1 /\ n' = n
         /\ cst' = [env |-> Trace[n].env, fns |-> Trace[n].fns]
         /\ files' = FilesOf(Trace[n].files)
         /\ UNCHANGED <<sess, invs, procs, out>>

SameLog(x, y) == /\ Len(x) = Len(y)
                 /\ \A j \in 1..Len(x) : x[j].e = y[j].e /\ x[j].a = y[j].a /\ VEq(x[j].v, y[j].v)
SameCalls(x, y) == /\ Len(x) = Len(y)
                   /\ \A j \in 1..Len(x) : x[j].f = y[j].f /\ x[j].k = y[j].k /\ VEq(x[j].o, y[j].o)
Same(o, exp, cmp) ==
  /\ o.r = exp.r
  /\ o.r = "ok" => VEq(o.v, exp.v)
  /\ Contains(cmp, "l") => SameLog(o.log, exp.log)
  /\ Contains(cmp, "c") => SameCalls(o.calls, exp.calls)

Report(op, o, exp) ==
  PrintT("MISMATCH " \o ToJson([id |-> Trace[n].id, n |-> n, at |-> l, op |-> op, observed |-> o, expected |-> exp]))

TStep(x) ==
  /\ l > 0 /\ l <= Len(Trace[n].ops)
  /\ l' = l + 1 /\ n' = n
  /\ LET op == Trace[n].ops[l]
         o  == Trace[n].obs[l]
     IN /\ Do(op)
        /\ IF Same(o, out', Trace[n].cmp) THEN TRUE ELSE Report(op, o, out')
        /\ IF LookupOptionsHidden(op, out') THEN TRUE ELSE Assert(FALSE, "lookup_options disclosed")
  /\ IF l = Len(Trace[n].ops) THEN PrintT("DONE " \o ToString(n)) ELSE TRUE

TNext == TLoad \/ TStep(0)

=============================================================================
