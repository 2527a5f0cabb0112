--------------------------- MODULE PluginRegistry ---------------------------
(***************************************************************************)
(* How the goroutines that use one session come by plugin processes.  The  *)
(* first one to need a function of an executable starts it, while those    *)
(* that need it, too, wait.  What the process announces is kept: the       *)
(* process in the registry, its functions in the loader.  Requests to end  *)
(* the processes wait for starts, and starts for such requests, but calls  *)
(* of functions take their course: when the process ended they fail.       *)
(*                                                                         *)
(* What was loaded is kept forever, also when the process has ended.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Exes
None == 0
Error == 99
Fine == 9      \* the result of a request to end
Ok == 1        \* what a process announces
Bad == 2

VARIABLES
  pc,     \* thread -> what it is about to do
  want,   \* thread -> the executable it needs, None: it ends the processes
  proc,   \* thread -> the process that it calls or started
  res,    \* thread -> the outcome of its call
  load,   \* executable -> the thread that loads its functions
  lock,   \* executable -> the thread that uses its place in the registry
  reg,    \* executable -> its process
  fns,    \* executable -> the process that its functions are loaded from
  alive,  \* processes that run
  exeof   \* sequence: the executables in the order in which they were started
rvars == <<pc, want, proc, res, load, lock, reg, fns, alive, exeof>>

RInit ==
  /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> None] /\ proc = [t \in Threads |-> None] /\ res = [t \in Threads |-> None]
  /\ load = [e \in Exes |-> None] /\ lock = [e \in Exes |-> None]
  /\ reg = [e \in Exes |-> None] /\ fns = [e \in Exes |-> None]
  /\ alive = {} /\ exeof = <<>>

Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Result(t, r) == Go(t, "return") /\ res' = [res EXCEPT ![t] = r]

Call(t, e) ==
  /\ pc[t] = "idle"
  /\ want' = [want EXCEPT ![t] = e]
  /\ Go(t, IF e = None THEN "endall" ELSE "load")
  /\ UNCHANGED <<proc, res, load, lock, reg, fns, alive, exeof>>
\* the functions of an executable are loaded by one at a time
Load(t) ==
  LET e == want[t] IN
  /\ pc[t] = "load" /\ load[e] = None
  /\ IF fns[e] # None
     THEN Go(t, "ask") /\ proc' = [proc EXCEPT ![t] = fns[e]] /\ UNCHANGED load
     ELSE Go(t, "find") /\ load' = [load EXCEPT ![e] = t] /\ UNCHANGED proc
  /\ UNCHANGED <<want, res, lock, reg, fns, alive, exeof>>
Find(t) ==
  LET e == want[t] IN
  /\ pc[t] = "find" /\ lock[e] = None
  /\ IF reg[e] # None
     THEN Go(t, "keep") /\ proc' = [proc EXCEPT ![t] = reg[e]] /\ UNCHANGED lock
     ELSE Go(t, "start") /\ lock' = [lock EXCEPT ![e] = t] /\ UNCHANGED proc
  /\ UNCHANGED <<want, res, load, reg, fns, alive, exeof>>
Start(t, e) ==
  LET p == Cardinality(DOMAIN exeof) + 1 IN
  /\ pc[t] = "start" /\ want[t] = e
  /\ exeof' = [q \in 1..p |-> IF q = p THEN e ELSE exeof[q]]
  /\ alive' = alive \cup {p}
  /\ proc' = [proc EXCEPT ![t] = p]
  /\ Go(t, "await")
  /\ UNCHANGED <<want, res, load, lock, reg, fns>>
Announce(t, e, k) ==
  /\ pc[t] = "await" /\ want[t] = e
  /\ Go(t, IF k = Ok THEN "register" ELSE "failed")
  /\ UNCHANGED <<want, proc, res, load, lock, reg, fns, alive, exeof>>
Register(t) ==
  LET e == want[t] IN
  /\ pc[t] = "register"
  /\ reg' = [reg EXCEPT ![e] = proc[t]]
  /\ lock' = [lock EXCEPT ![e] = None]
  /\ Go(t, "keep")
  /\ UNCHANGED <<want, proc, res, load, fns, alive, exeof>>
\* the process of a failed start is ended before anything else can happen to the executable
Failed(t) ==
  LET e == want[t] IN
  /\ pc[t] = "failed"
  /\ alive' = alive \ {proc[t]}
  /\ lock' = [lock EXCEPT ![e] = None] /\ load' = [load EXCEPT ![e] = None]
  /\ Result(t, Error)
  /\ UNCHANGED <<want, proc, reg, fns, exeof>>
Keep(t) ==
  LET e == want[t] IN
  /\ pc[t] = "keep"
  /\ fns' = [fns EXCEPT ![e] = proc[t]]
  /\ load' = [load EXCEPT ![e] = None]
  /\ Go(t, "ask")
  /\ UNCHANGED <<want, proc, res, lock, reg, alive, exeof>>
\* a call reaches the process, or not, and then gets a response, or not
Ask(t) ==
  /\ pc[t] = "ask"
  /\ IF proc[t] \in alive THEN Go(t, "respond") /\ UNCHANGED res ELSE Result(t, Error)
  /\ UNCHANGED <<want, proc, load, lock, reg, fns, alive, exeof>>
Respond(t) ==
  /\ pc[t] = "respond"
  /\ Result(t, IF proc[t] \in alive THEN want[t] ELSE Error)
  /\ UNCHANGED <<want, proc, load, lock, reg, fns, alive, exeof>>
\* all processes are ended, one after the other, while nothing can be started
EndAll(t) ==
  /\ pc[t] = "endall" /\ \A e \in Exes : lock[e] = None
  /\ lock' = [e \in Exes |-> t]
  /\ Go(t, "ending")
  /\ UNCHANGED <<want, proc, res, load, reg, fns, alive, exeof>>
End(t, e) ==
  /\ pc[t] = "ending" /\ reg[e] # None
  /\ alive' = alive \ {reg[e]}
  /\ reg' = [reg EXCEPT ![e] = None]
  /\ UNCHANGED <<pc, want, proc, res, load, lock, fns, exeof>>
Ended(t) ==
  /\ pc[t] = "ending" /\ \A e \in Exes : reg[e] = None
  /\ lock' = [e \in Exes |-> None]
  /\ Result(t, Fine)
  /\ UNCHANGED <<want, proc, load, reg, fns, alive, exeof>>
Return(t) ==
  /\ pc[t] = "return" /\ Go(t, "idle")
  /\ UNCHANGED <<want, proc, res, load, lock, reg, fns, alive, exeof>>

Internal(t) == Load(t) \/ Find(t) \/ Register(t) \/ Failed(t) \/ Keep(t) \/ Ask(t) \/ Respond(t) \/ EndAll(t) \/ (\E e \in Exes : End(t, e)) \/ Ended(t)
=============================================================================
