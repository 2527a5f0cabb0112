------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* The merge strategies as operations on the values found, highest         *)
(* precedence first.                                                       *)
(***************************************************************************)
EXTENDS Values

Strategies == {"first", "unique", "hash", "deep"}

RECURSIVE FlattenSeq(_)
FlattenSeq(sq) == IF Len(sq) = 0 THEN <<>>
                  ELSE (IF IsArr(sq[1]) THEN FlattenSeq(sq[1].a) ELSE <<sq[1]>>) \o FlattenSeq(Tail(sq))
Flatten(v) == Arr(FlattenSeq(v.a))

RECURSIVE UniqSeq(_, _)
UniqSeq(sq, acc) == IF Len(sq) = 0 THEN acc
                    ELSE UniqSeq(Tail(sq), IF \E j \in 1..Len(acc) : VEq(acc[j], sq[1]) THEN acc ELSE Append(acc, sq[1]))
Uniq(v) == Arr(UniqSeq(v.a, <<>>))

RECURSIVE Deep(_, _)
Deep(x, y) ==
  IF IsMap(x) /\ IsMap(y)
  THEN LET upper == [j \in 1..Len(x.m) |-> <<x.m[j][1],
                        IF MHas(y, x.m[j][1]) THEN Deep(x.m[j][2], MGet(y, x.m[j][1])) ELSE x.m[j][2]>>]
           lower == SelectSeq(y.m, LAMBDA e : ~MHas(x, e[1]))
       IN Map(upper \o lower)
  ELSE IF IsArr(x) /\ IsArr(y) /\ Len(y.a) > 0
  THEN IF Len(x.a) = 0 THEN y
       ELSE Uniq(Arr(x.a \o y.a))
  ELSE x

\* what the first value found becomes when several levels may contribute
Convert(strat, v) == IF strat = "unique" THEN (IF IsArr(v) THEN Uniq(Flatten(v)) ELSE Arr(<<v>>)) ELSE v
\* what a value becomes when there is only one place to look for it
Single(strat, v) == IF strat = "unique" /\ IsArr(v) THEN Uniq(Flatten(v)) ELSE v
\* memo has precedence over v
Merge2(strat, memo, v) ==
  CASE strat = "unique" -> Uniq(Arr(Convert("unique", memo).a \o Convert("unique", v).a))
    [] strat = "hash"   -> IF IsMap(memo) /\ IsMap(v) THEN MPutAll(v, memo) ELSE memo
    [] strat = "deep"   -> Deep(memo, v)
    [] OTHER            -> memo

RECURSIVE FoldMerge(_, _, _)
FoldMerge(strat, memo, vs) == IF Len(vs) = 0 THEN memo
                              ELSE FoldMerge(strat, Merge2(strat, memo, vs[1]), Tail(vs))
\* merge of a non-empty sequence of found values out of several variants
MergeAll0(strat, vs) == FoldMerge(strat, Convert(strat, vs[1]), Tail(vs))
MergeAllF == [x \in Any |-> MergeAll0(x[1], x[2])]
MergeAll(strat, vs) == MergeAllF[<<strat, vs>>]
=============================================================================
