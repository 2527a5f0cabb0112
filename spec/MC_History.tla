----------------------------- MODULE MC_History -----------------------------
(***************************************************************************)
(* P10: every history of writes, lookups and new invocations up to a given *)
(* length, with two invocations of one session and one of another.  The    *)
(* expected outcomes are those of a bookkeeping that knows nothing but the *)
(* versions of the files.                                                  *)
(***************************************************************************)
EXTENDS MCBase
CONSTANTS MaxOps, Wide
Level(n) == Mp(<< <<"name", Str(n)>>, <<"path", Str(n \o ".yaml")>> >>)
Cfgs == [A |-> Cfg5(<<Level("a")>>), B |-> Cfg5(<<Level("b"), Level("a")>>), bad |-> Cfg5(<<Level("a"), Level("a")>>)]
Base == << <<"c", Str("%{lookup('d')}")>>, <<"d", Str("%{lookup('c')}")>> >>
Datas == [one |-> Doc(Mp(<< <<"k", Arr(<<Str("a1 %{v}")>>)>> >> \o Base)),
          two |-> Doc(Mp(<< <<"k", Str("a2")>>, <<"lookup_options", Mp(<< <<"k", Mp(<< <<"merge", Str("unique")>> >>)>> >>)>> >> \o Base)),
          bad |-> [bad |-> "k: ["]]
CfgP == "/R/hiera.yaml"
AP == "/R/data/a.yaml"
W(p, t, ver, c) == [op |-> "write", p |-> p, t |-> t, ver |-> ver, c |-> c]
Li(i, k) == [op |-> "lookup", i |-> i, key |-> k]
LiU(i, k) == [op |-> "lookup", i |-> i, key |-> k, opts |-> Mp(<< <<"merge", Str("unique")>> >>)]
\* with another scope in effect
LiB(i, k) == [op |-> "lookup", i |-> i, key |-> k, bind |-> Mp(<< <<"v", Str("bound")>> >>)]
Iv(i, s) == [op |-> "inv", i |-> i, s |-> s]
Ses(s) == [op |-> "session", s |-> s, root |-> "/R", scope |-> Mp(<< <<"v", Str("web")>> >>)]
Menu == <<W(CfgP, "cfg", "B", Cfgs.B), W(CfgP, "cfg", "bad", Cfgs.bad), W(CfgP, "cfg", "A", Cfgs.A), W(AP, "a", "two", Datas.two), W(AP, "a", "bad", Datas.bad),
          W(AP, "a", "one", Datas.one), Li("i", "k"), Li("i", "c"), LiU("i", "k"), LiB("i", "k"), Li("j", "k"), Li("m", "k"), Iv("i", "s")>>
        \o (IF Wide THEN <<Li("i", "nosuch"), Li("j", "d"), Li("m", "c"), Iv("m", "t"), Iv("j", "t")>> ELSE <<>>)
Prefix == <<Ses("s"), Iv("i", "s"), Iv("j", "s"), Ses("t"), Iv("m", "t")>>
World == [files |-> <<<<CfgP, Cfgs.A>>, <<AP, Datas.one>>, F("data/b.yaml", Doc(Mp(<< <<"k", Str("b")>> >>)))>>, env |-> EmptyFn, fns |-> EmptyFn]
Init == MCInit(World)
IsW(op) == op.op = "write"
\* what can't make a difference is left out
Sensible(op) ==
  LET n == Len(hist) - Len(Prefix) IN
  /\ n = MaxOps - 1 => op.op = "lookup"
  /\ n > 0 => /\ ~(IsW(op) /\ IsW(LastOp) /\ LastOp.t = op.t)
              /\ ~(op.op = "inv" /\ LastOp.op = "inv" /\ op.i = LastOp.i)
  \* the file changes
  /\ IsW(op) => LET ws == {j \in 1..Len(hist) : IsW(hist[j].op) /\ hist[j].op.t = op.t}
                    cur == IF ws = {} THEN (IF op.t = "cfg" THEN "A" ELSE "one")
                           ELSE hist[CHOOSE j \in ws : \A k \in ws : k <= j].op.ver
                IN cur # op.ver
Next ==
  IF Len(hist) < Len(Prefix) THEN Step(Prefix[Len(hist) + 1])
  ELSE /\ Len(hist) < Len(Prefix) + MaxOps
       /\ \E j \in 1..Len(Menu) : Sensible(Menu[j]) /\ Step(Menu[j])
       /\ IF Len(hist') = Len(Prefix) + MaxOps THEN Export(hist', "") ELSE TRUE
MCView == [j \in 1..Len(hist) |-> hist[j].op]

(***************************************************************************)
(* The bookkeeping: versions of the files, the config of each session, the *)
(* snapshot of each invocation                                             *)
(***************************************************************************)
B0 == [cfg |-> "A", a |-> "one", sc |-> [s |-> "", t |-> ""], iv |-> [i |-> <<>>, j |-> <<>>, m |-> <<>>], ses |-> [i |-> "s", j |-> "s", m |-> "t"]]
\* the versions that a lookup by i sees: <<>> when it fails
Seen(b, i) ==
  IF b.iv[i] # <<>> THEN b.iv[i]
  ELSE LET c == IF b.sc[b.ses[i]] # "" THEN b.sc[b.ses[i]] ELSE b.cfg
       IN IF c = "bad" \/ b.a = "bad" THEN <<>> ELSE <<c, b.a>>
Book(b, op) ==
  CASE op.op = "write" -> IF op.t = "cfg" THEN [b EXCEPT !.cfg = op.ver] ELSE [b EXCEPT !.a = op.ver]
    [] op.op = "inv" -> [b EXCEPT !.iv[op.i] = <<>>, !.ses[op.i] = op.s]
    [] op.op = "lookup" ->
         LET s == b.ses[op.i] IN
         [b EXCEPT !.sc[s] = IF @ = "" /\ b.iv[op.i] = <<>> /\ b.cfg # "bad" THEN b.cfg ELSE @, !.iv[op.i] = Seen(b, op.i)]
    [] OTHER -> b
RECURSIVE Books(_, _)
Books(b, h) == IF Len(h) = 0 THEN b ELSE Books(Book(b, h[1].op), Tail(h))
Value(seen, uniq, v) ==
  LET av == IF seen[2] = "one" THEN Str("a1 " \o v) ELSE Str("a2")
      several == uniq \/ seen[2] = "two"
  IN IF seen[1] = "A" THEN IF seen[2] = "one" THEN Arr(<<av>>) ELSE av
     ELSE IF several THEN Arr(<<Str("b"), av>>) ELSE Str("b")
Snapshots ==
  LastIs("lookup") =>
    LET b == Books(B0, SubSeq(hist, 1, Len(hist) - 1))
        seen == Seen(b, LastOp.i)
    IN IF seen = <<>> \/ LastOp.key \in {"c", "d"} THEN out.r = "err"
       ELSE IF LastOp.key = "nosuch" THEN out.r = "nf"
       ELSE out.r = "ok" /\ out.v = Value(seen, "opts" \in DOMAIN LastOp, IF "bind" \in DOMAIN LastOp THEN "bound" ELSE "web")
=============================================================================
