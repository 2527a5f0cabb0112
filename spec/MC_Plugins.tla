----------------------------- MODULE MC_Plugins -----------------------------
(***************************************************************************)
(* P12: the processes of plugin executables under all sequences of lookups *)
(* and requests to end them, by two sessions, combined with each way in    *)
(* which an executable can start, respond and stop.  What runs and what a  *)
(* lookup yields is decided from the history alone.                        *)
(***************************************************************************)
EXTENDS MCBase
CONSTANTS MaxOps, Slow  \* Slow: the behaviours that need seconds to be dealt with
VARIABLE wo
pvars == <<mvars, wo>>

W(start, beh, stop, via, how) == [start |-> start, beh |-> beh, stop |-> stop, via |-> via, how |-> how]
Fast == {W(<<"ok">>, "table", "ok", v[1], v[2]) : v \in {<<"", "">>, <<"try", "fail">>, <<"do", "panic">>}}
        \cup {W(<<"ok">>, "die", "ok", "try", "return"), W(<<"exited">>, "table", "ok", "", ""), W(<<"noisy">>, "table", "ok", "do", "return"),
              W(<<"nonet">>, "table", "ok", "", ""), W(<<"ok", "version", "ok">>, "die", "ok", "", "")}
        \cup {W(<<k, "ok">>, "table", "ok", "try", "panic") : k \in {"exit", "garbage", "version", "badnames"}}
        \cup {W(<<k>>, "table", "ok", "", "") : k \in BadStarts \ {"silent", "silentdeaf", "dribble"}}
Slows == {W(<<k, "ok">>, "table", "ok", "", "") : k \in {"silent", "silentdeaf", "dribble"}}
         \cup {W(<<"ok">>, b, st, v, "return") : b \in {"table"}, st \in {"ignore", "child"}, v \in {"", "try"}}
         \cup {W(<<"ok">>, "slow", "ok", "", "")}
Worlds == IF Slow THEN Slows ELSE Fast

Tab(x) == Mp(<< <<"k", Str(x)>> >>)
Entry1 == Mp(<< <<"name", Str("p")>>, <<"lookup_key", Str("%{fn}")>>, <<"plugindir", Str("%{dir}")>>, <<"pluginfile", Str("p")>> >>)
World(x) ==
  [files |-> <<CfgFile(<<Entry1>>),
               F("d1/p", [x |-> [fns |-> [f |-> Fn("lookup_key", "table", "", Tab("f1")), g |-> Fn("lookup_key", x.beh, "", Tab("g1"))],
                                 start |-> x.start, stop |-> x.stop]]),
               F("d2/p", [x |-> [fns |-> [f |-> Fn("lookup_key", "table", "", Tab("f2"))], start |-> <<"ok">>, stop |-> "ok"]])>>,
   env |-> EmptyFn, fns |-> EmptyFn]
S(s) == IF wo.via = "" \/ s = "t" THEN [op |-> "session", s |-> s, root |-> "/R"] ELSE [op |-> "session", s |-> s, root |-> "/R", via |-> wo.via]
I(i, s, f, d) == [op |-> "inv", i |-> i, s |-> s, scope |-> Mp(<< <<"fn", Str(f)>>, <<"dir", Str(d)>> >>)]
Prefix == <<S("s"), S("t"), I("a", "s", "f", "d1"), I("b", "s", "g", "d1"), I("c", "s", "f", "d2"), I("d", "t", "f", "d1"), I("e", "s", "h", "d1")>>
SessOf(op) == CASE op.op \in {"kill", "end"} -> op.s [] op.i = "d" -> "t" [] OTHER -> "s"
DirOfInv == [a |-> "d1", b |-> "d1", c |-> "d2", d |-> "d1", e |-> "d1"]
Lk(i) == [op |-> "lookup", i |-> i, key |-> "k"]
KillS == [op |-> "kill", s |-> "s"]
\* the more is to be seen the less is tried
Pool == IF Slow THEN {Lk("a"), Lk("b"), KillS}
        ELSE IF Len(wo.start) = 1 /\ wo.start[1] \in BadStarts THEN {Lk("a"), Lk("d")}
        ELSE {Lk("a"), Lk("b"), Lk("d"), KillS} \cup (IF wo.start = <<"ok">> THEN {Lk("c"), Lk("e")} ELSE {})
Tail1 == <<[op |-> "procs"], IF wo.via = "" THEN KillS ELSE [op |-> "end", s |-> "s", how |-> wo.how], [op |-> "procs"]>>

Init == /\ wo \in Worlds
        /\ MCInit(World(wo))
P == Len(Prefix)
\* what was done since the end of the tail's first look
Looked == {j \in 1..Len(hist) : hist[j].op.op = "procs"}
Next == /\ wo' = wo
        /\ IF Len(hist) < P THEN Step(Prefix[Len(hist) + 1])
           ELSE IF Looked = {}
           THEN \/ Len(hist) < P + MaxOps /\ \E op \in Pool : Step(op)
                \/ Len(hist) > P /\ Step(Tail1[1])
           ELSE LET n == Len(hist) - (CHOOSE j \in Looked : \A k \in Looked : j <= k) + 1
                IN /\ n < 3
                   /\ Step(Tail1[n + 1])
                   /\ (n = 2 => Export(hist', "c"))
MCView == <<wo, [j \in 1..Len(hist) |-> hist[j].op]>>

(***************************************************************************)
(* The property, told from the history                                     *)
(***************************************************************************)
Ops == [j \in 1..Len(hist) |-> hist[j].op]
IsLk(op, s, d) == op.op = "lookup" /\ SessOf(op) = s /\ DirOfInv[op.i] = d
\* the state of the executable in directory d for session s after the first n operations:
\* n: how often it was started by anyone, up: it runs, known: its functions are loaded, dead: what is loaded belongs to a process that ended
KindAt(d, n) == IF d = "d2" THEN "ok" ELSE StartKind([start |-> wo.start], n)
RECURSIVE Life(_)
None == [up |-> FALSE, known |-> FALSE, dead |-> FALSE]
Life0 == [n |-> [d1 |-> 0, d2 |-> 0], s |-> [d1 |-> None, d2 |-> None], t |-> [d1 |-> None, d2 |-> None], r |-> "", v |-> ""]
\* effect of a lookup by session s of invocation i
Look(l, s, i) ==
  LET d == DirOfInv[i]
      me == l[s][d]
      starts == ~me.up /\ (~me.known \/ i = "e")   \* what is loaded is never loaded again
      k == KindAt(d, l.n[d] + 1)
      l1 == IF starts THEN [l EXCEPT !.n[d] = @ + 1] ELSE l
      got == IF ~starts THEN me
             ELSE IF k \in GoodStarts THEN [up |-> TRUE, known |-> (i # "e") \/ me.known, dead |-> IF me.known THEN me.dead ELSE k = "exited"] ELSE me
      fails == (starts /\ k \notin GoodStarts) \/ got.dead \/ i = "e"
      dies == ~fails /\ i = "b" /\ wo.beh = "die"
      bad == fails \/ dies \/ (i = "b" /\ wo.beh = "slow")
      got2 == IF dies THEN [got EXCEPT !.dead = TRUE] ELSE IF ~starts /\ ~got.known /\ i # "e" THEN [got EXCEPT !.known = TRUE] ELSE got
  IN [l1 EXCEPT ![s][d] = got2, !.r = IF bad THEN "err" ELSE "ok", !.v = CASE i = "b" -> "g1" [] i = "c" -> "f2" [] OTHER -> "f1"]
Life(n) ==
  IF n = 0 THEN Life0
  ELSE LET op == hist[n].op
           l == Life(n - 1)
           gone(x) == [x EXCEPT !.up = FALSE, !.dead = x.known]
       IN CASE op.op = "lookup" -> Look(l, SessOf(op), op.i)
            [] op.op \in {"kill", "end"} -> [l EXCEPT !.s = [d \in {"d1", "d2"} |-> gone(@[d])], !.r = IF op.op = "end" /\ op.how # "return" THEN "err" ELSE "ok"]
            [] OTHER -> l
LifeDecides ==
  Len(hist) > P =>
  LET l == Life(Len(hist))
      num(d) == SGet(out.v, "/R/" \o d \o "/p").a
      running(d) == Cardinality({s \in {"s", "t"} : l[s][d].up})
  IN /\ LastOp.op \in {"lookup", "kill", "end"} => out.r = l.r /\ (LastOp.op = "lookup" /\ out.r = "ok" => out.v = Str(l.v))
     /\ LastOp.op = "procs" => \A d \in {"d1", "d2"} :
          IF l.n[d] = 0 THEN ~SHas(out.v, "/R/" \o d \o "/p")
          ELSE /\ num(d)[1] = IntV(l.n[d])
               /\ num(d)[2].i + num(d)[3].i = running(d)
               /\ (wo.beh # "die" /\ wo.start # <<"exited">>) => num(d)[3] = IntV(0)
\* when session s was ended none of its processes is left
NoneLeft == LastIs("kill") \/ LastIs("end") => DOMAIN sess["s"].pl.reg = {} /\ \A p \in DOMAIN procs.procs : procs.procs[p].st # "gone" => \E q \in DOMAIN sess["t"].pl.reg : sess["t"].pl.reg[q] = p
=============================================================================
