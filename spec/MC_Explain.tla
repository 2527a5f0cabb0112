----------------------------- MODULE MC_Explain -----------------------------
(***************************************************************************)
(* P14: hierarchies with every combination of what a location may hold,    *)
(* looked up without explainer and with one of each kind.  The expected    *)
(* explanation is told from the hierarchy alone.                           *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Slots   \* the number of locations that vary
Stats == {"miss", "none", "hit", "ref", "fail", "bad"}
\* shapes: locations per level; f is a level with a function that fails, if it is reached
Shapes == IF Slots = 2 THEN {<<1>>, <<2>>, <<1, 1>>, <<1, 1, 0>>, <<1, 0>>} ELSE {<<3>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>, <<2, 0, 1>>}
SlotNo(sh, l, s) == Sum(SubSeq(sh, 1, l - 1)) + s
Plans == UNION {{[sh |-> sh, st |-> st, m |-> m, x |-> x] : st \in [1..Sum(sh) -> Stats], m \in {"", "cli", "lo", "cli deep"}, x \in {"d", "do", "o"}} : sh \in Shapes}
FileNm(j) == "f" \o ToString(j) \o ".yaml"
\* the values are arrays, so that they merge
Content(stat, j) ==
  CASE stat = "none" -> Doc(Mp(<< <<"other", Str("x")>> >>))
    [] stat = "hit" -> Doc(Mp(<< <<"k", Arr(<<Str("v" \o ToString(j)), Str("same")>>)>> >>))
    [] stat = "ref" -> Doc(Mp(<< <<"k", Arr(<<Str("%{lookup('o')}")>>)>>, <<"o", Str("o" \o ToString(j))>> >>))
    [] stat = "fail" -> Doc(Mp(<< <<"k", Arr(<<Str("a %{alias('o')}")>>)>> >>))
    [] stat = "bad" -> Doc(Str("not a map"))
Options == Mp(<< <<"k", Mp(<< <<"merge", Str("unique")>> >>)>> >>)
World(p) ==
  LET sh == p.sh
      level(l) == IF sh[l] = 0 THEN Mp(<< <<"name", Str("l" \o ToString(l))>>, <<"lookup_key", Str("ferr")>> >>)
                  ELSE Mp(<< <<"name", Str("l" \o ToString(l))>>, <<"paths", Arr([s \in 1..sh[l] |-> Str(FileNm(SlotNo(sh, l, s)))])>> >>)
      last == Mp(<< <<"name", Str("opts")>>, <<"path", Str("opts.yaml")>> >>)
  IN [files |-> <<CfgFile([l \in 1..Len(sh) |-> level(l)] \o (IF p.m = "lo" THEN <<last>> ELSE <<>>))>>
                \o (IF p.m = "lo" THEN <<F("data/opts.yaml", Doc(Mp(<< <<"lookup_options", Options>> >>)))>> ELSE <<>>)
                \o SelectSeq([j \in 1..Sum(sh) |-> F("data/" \o FileNm(j), IF p.st[j] = "miss" THEN Null ELSE Content(p.st[j], j))], LAMBDA f : f[2] # Null),
      env |-> EmptyFn, fns |-> [ferr |-> Fn("lookup_key", "err", "", EmptyMap)]]
VARIABLE plan
OpsOf(p) ==
  LET o == IF p.m = "cli" THEN [opts |-> Mp(<< <<"merge", Str("unique")>> >>)]
           ELSE IF p.m = "cli deep" THEN [opts |-> Mp(<< <<"merge", Mp(<< <<"strategy", Str("deep")>>, <<"extra", IntV(1)>> >>)>> >>)] ELSE EmptyFn
  IN <<NSession, NInv, [op |-> "inv", i |-> "x", s |-> "s", x |-> p.x]>>
     \o Cat2([j \in 1..3 |-> LET k == <<"k", "k.0", "lookup_options">>[j] IN << L(k) @@ o, [op |-> "lookup", i |-> "x", key |-> k] @@ o>>])
     \o << [op |-> "explain", i |-> "x", form |-> "text"], [op |-> "explain", i |-> "x", form |-> "tree"]>>
Init == \E p \in Plans : plan = [p |-> p, ops |-> OpsOf(p)] /\ MCInit(World(p))
Next == Follow(plan.ops, "l") /\ plan' = plan
MCView == <<plan.p, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
P == plan.p
E0(e, a) == [e |-> e, a |-> a, v |-> Null]
EV0(e, a, v) == [e |-> e, a |-> a, v |-> v]
\* an explanation: the events, the outcome (ok, nf, err) and the value
X(lg, r, v) == [lg |-> lg, r |-> r, v |-> v]
Around(e, a, x) == X(<<E0(e, a)>> \o x.lg \o <<E0("pop", "")>>, x.r, x.v)
RECURSIVE Consult(_, _, _)
\* what a slot holds for a name, with what is told while obtaining it
Held(j, name) ==
  LET s == P.st[j] IN
  CASE s = "bad" -> X(<<>>, "err", Null)
    [] name = "k" /\ s = "hit" -> X(<<>>, "ok", Arr(<<Str("v" \o ToString(j)), Str("same")>>))
    [] name = "k" /\ s = "fail" -> X(<<E0("interp", "a %{alias('o')}"), E0("pop", "")>>, "err", Null)
    [] name = "k" /\ s = "ref" ->
         LET y == Consult("o", "first", "") IN
         X(<<E0("interp", "%{lookup('o')}")>> \o y.lg \o <<E0("pop", "")>>, IF y.r = "err" THEN "err" ELSE "ok", Arr(<<y.v>>))
    [] name = "o" /\ s = "ref" -> X(<<>>, "ok", Str("o" \o ToString(j)))
    [] OTHER -> X(<<>>, "nf", Null)
Told(x, name) == X(x.lg \o (CASE x.r = "ok" -> <<EV0("found", name, x.v)>> [] x.r = "nf" -> <<E0("nf", name)>> [] OTHER -> <<>>), x.r, x.v)
Slot(j, name) ==
  Around("location", "path|" \o FileNm(j) \o "|/R/data/" \o FileNm(j),
    IF P.st[j] = "miss" THEN X(<<E0("locnf", "")>>, "nf", Null) ELSE Told(Held(j, name), name))
\* a sequence of explanations combined with a strategy
RECURSIVE Until(_, _)
\* the first one that isn't nf ends it
Until(xs, seen) ==
  IF Len(xs) = 0 THEN X(seen, "nf", Null)
  ELSE IF xs[1].r = "nf" THEN Until(Tail(xs), seen \o xs[1].lg)
  ELSE X(seen \o xs[1].lg \o (IF xs[1].r = "ok" THEN <<EV0("mergeresult", "", xs[1].v)>> ELSE <<>>), xs[1].r, xs[1].v)
RECURSIVE Every(_, _, _)
Every(xs, seen, vs) ==
  IF Len(xs) = 0 THEN X(seen, IF Len(vs) = 0 THEN "nf" ELSE "ok", IF Len(vs) = 0 THEN Null ELSE vs)
  ELSE IF xs[1].r = "err" THEN X(seen \o xs[1].lg, "err", Null)
  ELSE Every(Tail(xs), seen \o xs[1].lg, IF xs[1].r = "ok" THEN Append(vs, xs[1].v) ELSE vs)
\* unique values in order of appearance; the values here are flat arrays
RECURSIVE Uniq1(_, _)
Uniq1(sq, acc) == IF Len(sq) = 0 THEN acc ELSE Uniq1(Tail(sq), IF \E j \in 1..Len(acc) : acc[j] = sq[1] THEN acc ELSE Append(acc, sq[1]))
Joined(vs) == IF IsMap(vs[1]) THEN vs[1] ELSE Arr(Uniq1(Cat2([j \in 1..Len(vs) |-> vs[j].a]), <<>>))
Combine(xs, strat, so) ==
  IF Len(xs) = 1 THEN (IF xs[1].r = "ok" /\ IsArr(xs[1].v) /\ strat = "unique" THEN [xs[1] EXCEPT !.v = Arr(Uniq1(@.a, <<>>))] ELSE xs[1])
  ELSE IF strat = "first" THEN Until(xs, <<>>)
  ELSE LET e == Every(xs, <<>>, <<>>)
           v == IF e.r = "ok" THEN Joined(e.v) ELSE Null
       IN X(<<EV0("merge", strat, so)>> \o e.lg \o (IF e.r = "ok" THEN <<EV0("mergeresult", "", v)>> ELSE <<>>) \o <<E0("pop", "")>>, e.r, v)
Level(l, name, strat, so) ==
  IF P.sh[l] = 0
  THEN Around("provider", "l" \o ToString(l) \o "|lookup_key|ferr", IF name = "lookup_options" THEN X(<<E0("nf", name)>>, "nf", Null) ELSE X(<<>>, "err", Null))
  ELSE Around("provider", "l" \o ToString(l) \o "|data_hash|yaml_data", Combine([s \in 1..P.sh[l] |-> Slot(SlotNo(P.sh, l, s), name)], strat, so))
OptLevel(name) ==
  Around("provider", "opts|data_hash|yaml_data", Around("location", "path|opts.yaml|/R/data/opts.yaml",
    IF name = "lookup_options" THEN Told(X(<<>>, "ok", Options), name) ELSE X(<<E0("nf", name)>>, "nf", Null)))
Levels(name, strat, so) == [l \in 1..Len(P.sh) |-> Level(l, name, strat, so)] \o (IF P.m = "lo" THEN <<OptLevel(name)>> ELSE <<>>)
\* the whole of a lookup of a name with a strategy that comes from the given source; so are its options
ConsultWith(name, strat, src, so) ==
  LET c == Combine(Levels(name, strat, so), strat, so) IN
  X(<<E0("lookup", name)>> \o (IF src = "" THEN <<>> ELSE <<E0("mergesource", src)>>) \o c.lg \o <<E0("pop", "")>>, c.r, c.v)
Consult(name, strat, src) == ConsultWith(name, strat, src, EmptyMap)
OptionsPart == Consult("lookup_options", "deep", "")
DataPart ==
  CASE P.m = "" -> Consult("k", "first", "")
    [] P.m = "cli" -> Consult("k", "unique", "CLI option")
    [] P.m = "cli deep" -> ConsultWith("k", "deep", "CLI option", Mp(<< <<"extra", IntV(1)>> >>))
    [] P.m = "lo" -> Consult("k", "unique", "\"lookup_options\" hash")
Dug(x) == IF x.r # "ok" THEN x ELSE X(x.lg \o <<E0("sublookup", "k.0"), E0("segment", "0"), EV0("found", "0", x.v.a[1]), E0("pop", ""), E0("pop", "")>>, "ok", x.v.a[1])
\* the options are sought once by an invocation unless that fails; a malformed file makes it fail
AnyBad == \E j \in 1..Sum(P.sh) : P.st[j] = "bad"
Xp(key) ==
  LET lo == P.x \in {"do", "o"}
      before == \E j \in 1..(Len(hist) - 1) : hist[j].op.op = "lookup" /\ hist[j].op.i = "x" /\ hist[j].out.r # "err"
      again == \E j \in 1..(Len(hist) - 1) : hist[j].op.op = "lookup" /\ hist[j].op.i = "x" /\ ~AnyBad
      od == IF lo /\ ~again THEN OptionsPart.lg ELSE <<>>
      d == IF key = "k.0" THEN Dug(DataPart) ELSE DataPart
      dd == IF P.x = "o" THEN <<>> ELSE d.lg
  IN IF key = "lookup_options" THEN <<E0("invalid", key), E0("nf", key), E0("pop", "")>>
     ELSE IF AnyBad THEN od ELSE od \o dd
Accurate == (LastIs("lookup") /\ LastOp.i = "x") => out.log = Xp(LastOp.key)
\* the explainer doesn't change the outcome, and it is the one expected
Transparent == (LastIs("lookup") /\ LastOp.i = "x") => LET o == hist[Len(hist) - 1].out IN o.r = out.r /\ o.v = out.v
Right == LastIs("lookup") => LET d == IF LastOp.key = "k.0" THEN Dug(DataPart) ELSE DataPart
                                  e == IF LastOp.key = "lookup_options" THEN X(<<>>, "nf", Null) ELSE IF AnyBad THEN X(<<>>, "err", Null) ELSE d
                              IN out.r = e.r /\ (e.r = "ok" => out.v = e.v)
Nested == WellNested
Silence == (LastIs("lookup") /\ LastOp.i = "i") => out.log = <<>>
=============================================================================
