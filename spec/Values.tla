------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The universe of data values that hiera looks up, in an encoding that    *)
(* TLC can compare across kinds (each kind has its own field name) and     *)
(* that has a direct JSON form used by the conformance driver.             *)
(*                                                                         *)
(*   [g |-> decimal string]  an integer that needs more than 32 bits       *)
(*   [s |-> string] [i |-> int] [b |-> bool] [f |-> decimal string]        *)
(*   [n |-> "null"] [a |-> <<v, ...>>] [m |-> << <<k, v>>, ... >>]         *)
(*   [z |-> v]   a value wrapped as Sensitive                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null   == [n |-> "null"]
Str(x) == [s |-> x]
IntV(x) == [i |-> x]
Bool(x) == [b |-> x]
Arr(x) == [a |-> x]
Map(x) == [m |-> x]
Sens(x) == [z |-> x]

IsStr(v) == "s" \in DOMAIN v
IsInt(v) == "i" \in DOMAIN v
IsBool(v) == "b" \in DOMAIN v
IsFlt(v) == "f" \in DOMAIN v
IsBig(v) == "g" \in DOMAIN v
IsNull(v) == "n" \in DOMAIN v
IsArr(v) == "a" \in DOMAIN v
IsMap(v) == "m" \in DOMAIN v
IsSens(v) == "z" \in DOMAIN v

EmptyMap == Map(<<>>)

(***************************************************************************)
(* Some operators are wrapped in functions, which makes no difference to   *)
(* their meaning.  TLC evaluates an operator in the context of its caller, *)
(* which gets slower the deeper the evaluation is, but a function in the   *)
(* context of its definition.                                              *)
(***************************************************************************)

(***************************************************************************)
(* Equality of data: maps are unordered, arrays are ordered.               *)
(***************************************************************************)
RECURSIVE Canon(_)
Canon(v) ==
  IF IsArr(v) THEN [a |-> [j \in 1..Len(v.a) |-> Canon(v.a[j])]]
  ELSE IF IsMap(v)
       THEN [m |-> {<<Canon(v.m[j][1]), Canon(v.m[j][2])>> : j \in 1..Len(v.m)}]
  ELSE IF IsSens(v) THEN [z |-> Canon(v.z)]
  ELSE v

IsScalar(v) == ~(IsArr(v) \/ IsMap(v) \/ IsSens(v))
VEq(x, y) == IF IsScalar(x) \/ IsScalar(y) THEN x = y ELSE Canon(x) = Canon(y)

(***************************************************************************)
(* Maps: insertion ordered sequences of pairs with distinct keys.          *)
(***************************************************************************)
MIdx0(mv, k) == LET ix == IF IsScalar(k) THEN {j \in 1..Len(mv.m) : mv.m[j][1] = k} ELSE {j \in 1..Len(mv.m) : VEq(mv.m[j][1], k)}
                IN IF ix = {} THEN 0 ELSE CHOOSE j \in ix : TRUE
MIdxF == [x \in Any |-> MIdx0(x[1], x[2])]
MIdx(mv, k) == MIdxF[<<mv, k>>]
MHas(mv, k) == MIdx(mv, k) # 0
MGet(mv, k) == mv.m[MIdx(mv, k)][2]
MPut0(mv, k, v) == LET j == MIdx(mv, k) IN
                  IF j = 0 THEN Map(Append(mv.m, <<k, v>>))
                  ELSE Map([mv.m EXCEPT ![j] = <<@[1], v>>])
MPutF == [x \in Any |-> MPut0(x[1], x[2], x[3])]
MPut(mv, k, v) == MPutF[<<mv, k, v>>]
SHas(mv, name) == MHas(mv, Str(name))
SGet(mv, name) == MGet(mv, Str(name))

RECURSIVE MPutAll(_, _)
\* all entries of y put into x; entries of x keep their positions
MPutAll(x, y) ==
  IF Len(y.m) = 0 THEN x
  ELSE MPutAll(MPut(x, y.m[1][1], y.m[1][2]), Map(Tail(y.m)))

MWithout(mv, k) == Map(SelectSeq(mv.m, LAMBDA e : ~VEq(e[1], k)))

(***************************************************************************)
(* Strings                                                                 *)
(***************************************************************************)
Ch(str, j) == SubSeq(str, j, j)
Chars(str) == [j \in 1..Len(str) |-> SubSeq(str, j, j)]
\* Suffix starting at j / prefix of length j
From(str, j) == IF j > Len(str) THEN "" ELSE SubSeq(str, j, Len(str))
Upto(str, j) == IF j < 1 THEN "" ELSE SubSeq(str, 1, j)

\* the strings lo to hi of sq, joined (in halves: TLC keeps every string it ever makes)
RECURSIVE JoinRange(_, _, _, _)
JoinRange(sq, sep, lo, hi) ==
  IF lo > hi THEN "" ELSE IF lo = hi THEN sq[lo]
  ELSE LET mid == (lo + hi) \div 2 IN JoinRange(sq, sep, lo, mid) \o sep \o JoinRange(sq, sep, mid + 1, hi)
JoinSF == [x \in Any |-> JoinRange(x[1], x[2], 1, Len(x[1]))]
JoinS(sq, sep) == JoinSF[<<sq, sep>>]
Cat(sq) == JoinSF[<<sq, "">>]

\* the first position >= j where pat occurs in str, or 0
IndexFrom(str, pat, j) ==
  LET last == Len(str) - Len(pat) + 1
      at(k) == SubSeq(str, k, k + Len(pat) - 1) = pat
  IN IF \E k \in j..last : at(k) THEN CHOOSE k \in j..last : at(k) /\ \A l \in j..(k - 1) : ~at(l) ELSE 0
IndexFromF == [x \in Any |-> IndexFrom(x[1], x[2], x[3])]
IndexF == [x \in Any |-> IndexFrom(x[1], x[2], 1)]
Index(str, pat) == IndexF[<<str, pat>>]
Contains(str, pat) == Index(str, pat) # 0
HasPrefix(str, p) == Len(p) <= Len(str) /\ Upto(str, Len(p)) = p
HasSuffix(str, p) == Len(p) <= Len(str) /\ (Len(p) = 0 \/ SubSeq(str, Len(str) - Len(p) + 1, Len(str)) = p)

SpaceChars == {" ", "\t", "\n", "\r"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(str) == IF Len(str) > 0 /\ Ch(str, 1) \in SpaceChars THEN TrimL(From(str, 2)) ELSE str
TrimR(str) == IF Len(str) > 0 /\ Ch(str, Len(str)) \in SpaceChars THEN TrimR(Upto(str, Len(str) - 1)) ELSE str
Trim0(str) == TrimL(TrimR(str))
TrimF == [x \in Any |-> Trim0(x[1])]
Trim(str) == TrimF[<<str>>]

DigitStr == "0123456789"
LowerStr == "abcdefghijklmnopqrstuvwxyz"
UpperStr == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == {Ch(DigitStr, j) : j \in 1..10}
Lowers == {Ch(LowerStr, j) : j \in 1..26}
Uppers == {Ch(UpperStr, j) : j \in 1..26}
Letters == Lowers \cup Uppers
WordChars == Letters \cup Digits \cup {"_"}
DigitVal == [c \in Digits |-> Index(DigitStr, c) - 1]
LowerOf == [c \in Uppers |-> Ch(LowerStr, Index(UpperStr, c))]
ToLowerF == [str \in Any |-> Cat([j \in 1..Len(str) |-> IF Ch(str, j) \in Uppers THEN LowerOf[Ch(str, j)] ELSE Ch(str, j)])]
ToLower(str) == ToLowerF[str]

\* ASCII order of the printable characters
AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(c) == IF \E j \in 1..Len(AsciiStr) : SubSeq(AsciiStr, j, j) = c THEN CHOOSE j \in 1..Len(AsciiStr) : SubSeq(AsciiStr, j, j) = c ELSE 1000
StrLess(x, y) ==
  LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
      differ(j) == SubSeq(x, j, j) # SubSeq(y, j, j)
  IN IF \E j \in 1..n : differ(j)
     THEN LET j == CHOOSE j \in 1..n : differ(j) /\ \A l \in 1..(j - 1) : ~differ(l) IN Ord(Ch(x, j)) < Ord(Ch(y, j))
     ELSE Len(x) < Len(y)
LOCAL SetSeq == INSTANCE SequencesExt
SortStrs(set) == SortSeq(SetSeq!SetToSeq(set), StrLess)

\* split at every occurrence of the character c
SplitF == [x \in Any |->
  LET str == x[1]
      at == <<0>> \o SelectSeq([j \in 1..Len(str) |-> j], LAMBDA j : SubSeq(str, j, j) = x[2]) \o <<Len(str) + 1>>
  IN [j \in 1..(Len(at) - 1) |-> IF at[j] + 1 = at[j + 1] THEN "" ELSE SubSeq(str, at[j] + 1, at[j + 1] - 1)]]
Split(str, c) == SplitF[<<str, c>>]

RECURSIVE StripZeros(_)
StripZeros(str) == IF Len(str) > 1 /\ Ch(str, 1) = "0" THEN StripZeros(From(str, 2)) ELSE str
RECURSIVE NatOf(_, _)
NatOf(str, acc) == IF Len(str) = 0 THEN acc ELSE NatOf(From(str, 2), acc * 10 + DigitVal[Ch(str, 1)])
AllIn(str, set) == \A j \in 1..Len(str) : Ch(str, j) \in set

(***************************************************************************)
(* A decimal integer with optional sign that fits in 32 bits.              *)
(***************************************************************************)
Unsigned(str) == IF Len(str) > 0 /\ Ch(str, 1) \in {"-", "+"} THEN From(str, 2) ELSE str
IsInt320(str) ==
  LET u == Unsigned(str) IN
  /\ Len(u) > 0 /\ AllIn(u, Digits)
  /\ LET z == StripZeros(u) IN
     \/ Len(z) < 10
     \/ Len(z) = 10 /\ (z = "2147483647" \/ StrLess(z, "2147483647"))
     \/ z = "2147483648" /\ Ch(str, 1) = "-"
IsInt32F == [x \in Any |-> IsInt320(x[1])]
IsInt32(str) == IsInt32F[<<str>>]
IntOf(str) == LET n == NatOf(StripZeros(Unsigned(str)), 0)
              IN IF Ch(str, 1) = "-" THEN -n ELSE n

(***************************************************************************)
(* The string form of a value, as used when it is interpolated into a      *)
(* string or converted to one.                                             *)
(***************************************************************************)
QuoteCh(c) == IF c = "\"" THEN "\\\"" ELSE IF c = "\\" THEN "\\\\"
              ELSE IF c = "\n" THEN "\\n" ELSE IF c = "\t" THEN "\\t" ELSE c
Quote(str) == "\"" \o Cat([j \in 1..Len(str) |-> QuoteCh(Ch(str, j))]) \o "\""
SensText == "sensitive [value redacted]"
RECURSIVE RenderIn(_)
RenderIn(v) ==
  IF IsStr(v) THEN Quote(v.s)
  ELSE IF IsInt(v) THEN ToString(v.i)
  ELSE IF IsBool(v) THEN (IF v.b THEN "true" ELSE "false")
  ELSE IF IsFlt(v) THEN v.f
  ELSE IF IsBig(v) THEN v.g
  ELSE IF IsNull(v) THEN "nil"
  ELSE IF IsArr(v) THEN "{" \o JoinS([j \in 1..Len(v.a) |-> RenderIn(v.a[j])], ",") \o "}"
  ELSE IF IsMap(v)
       THEN "{" \o JoinS([j \in 1..Len(v.m) |-> RenderIn(v.m[j][1]) \o ":" \o RenderIn(v.m[j][2])], ",") \o "}"
  ELSE SensText
RenderF == [v \in Any |-> IF IsStr(v) THEN v.s ELSE IF IsNull(v) THEN "null" ELSE RenderIn(v)]
Render(v) == RenderF[v]

RECURSIVE HasText(_, _)
\* does the clear text x occur anywhere in the value?
HasText(v, x) ==
  IF IsStr(v) THEN Contains(v.s, x)
  ELSE IF IsArr(v) THEN \E j \in 1..Len(v.a) : HasText(v.a[j], x)
  ELSE IF IsMap(v) THEN \E j \in 1..Len(v.m) : HasText(v.m[j][1], x) \/ HasText(v.m[j][2], x)
  ELSE FALSE
=============================================================================
