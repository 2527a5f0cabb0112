------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* Common part of the exhaustive configurations.  A world w is a record    *)
(* with at least files (sequence of <<path, content>>), env and fns; hist  *)
(* holds the operations performed so far with their outcomes.  Complete    *)
(* behaviours are printed as scenarios that are replayed on the code.      *)
(***************************************************************************)
EXTENDS HieraSession, Json

VARIABLES w, hist
mvars == <<cst, files, sess, invs, procs, out, w, hist>>

FileFn(ps) == [p \in {ps[j][1] : j \in 1..Len(ps)} |-> ps[CHOOSE j \in 1..Len(ps) : ps[j][1] = p][2]]
MCInit(world) ==
  /\ w = world /\ hist = <<>>
  /\ InitWith(FileFn(world.files), world.env, world.fns)

\* cmp tells what besides the outcome is compared when the scenario is replayed (see Trace)
Export(h, cmp) ==
  PrintT("SCENARIO " \o ToJson([env |-> w.env, fns |-> w.fns, files |-> w.files, cmp |-> cmp,
                               ops |-> [j \in 1..Len(h) |-> h[j].op], exp |-> [j \in 1..Len(h) |-> h[j].out]]))
Step(op) ==
  /\ Do(op)
  /\ hist' = Append(hist, [op |-> op, out |-> out'])
  /\ w' = w

\* performs the operations of the plan one after the other
Follow(plan, cmp) ==
  /\ Len(hist) < Len(plan)
  /\ Step(plan[Len(hist) + 1])
  /\ IF Len(hist') = Len(plan) THEN Export(hist', cmp) ELSE TRUE

LastOp == hist[Len(hist)].op
LastIs(name) == Len(hist) > 0 /\ LastOp.op = name

(***************************************************************************)
(* Documents                                                               *)
(***************************************************************************)
Mp(ps) == Map([j \in 1..Len(ps) |-> <<Str(ps[j][1]), ps[j][2]>>])
Strs(ss) == Arr([j \in 1..Len(ss) |-> Str(ss[j])])
Doc(v) == [v |-> v]
Cfg5(es) == Doc(Mp(<< <<"version", IntV(5)>>, <<"hierarchy", Arr(es)>> >>))
F(n, v) == <<"/R/" \o n, v>>
CfgFile(es) == F("hiera.yaml", Cfg5(es))
NSession == [op |-> "session", s |-> "s", root |-> "/R"]
NInv == [op |-> "inv", i |-> "i", s |-> "s"]
L(k) == [op |-> "lookup", i |-> "i", key |-> k]
LO(k, o) == [op |-> "lookup", i |-> "i", key |-> k, opts |-> o]
Fn(kind, beh, arg, tab) == [kind |-> kind, beh |-> beh, arg |-> arg, tab |-> tab]

RECURSIVE SeqOf(_)
SeqOf(set) == IF set = {} THEN <<>> ELSE LET x == CHOOSE x \in set : TRUE IN <<x>> \o SeqOf(set \ {x})
RECURSIVE Cat2(_)
Cat2(sqs) == IF Len(sqs) = 0 THEN <<>> ELSE sqs[1] \o Cat2(Tail(sqs))
RECURSIVE Sum(_)
Sum(sq) == IF Len(sq) = 0 THEN 0 ELSE sq[1] + Sum(Tail(sq))
=============================================================================
