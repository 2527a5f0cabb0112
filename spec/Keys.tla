-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* The syntax of lookup keys and digging.  A parsed key is                 *)
(*   [ok, src, parts]  where a part is [s |-> name] or [i |-> index].      *)
(* The parser is a character automaton with modes                          *)
(*   "u" (unquoted), "'" and "\"" (inside that quote).                     *)
(***************************************************************************)
EXTENDS Values

BadKey(src) == [ok |-> FALSE, src |-> src, parts |-> <<>>]

\* close the segment buf; q tells if some part of it was quoted
SegOk(buf, q, n) == q \/ (buf # "" /\ ~(IsInt32(buf) /\ n = 0))
SegOf(buf, q) == IF ~q /\ IsInt32(buf) THEN IntV(IntOf(buf)) ELSE Str(buf)

RECURSIVE KeyScan(_, _, _, _, _, _)
KeyScan(src, j, mode, buf, q, parts) ==
  IF j > Len(src)
  THEN IF mode # "u" \/ ~SegOk(buf, q, Len(parts)) THEN BadKey(src)
       ELSE [ok |-> TRUE, src |-> src, parts |-> Append(parts, SegOf(buf, q))]
  ELSE LET c == Ch(src, j) IN
    IF mode # "u"
    THEN IF c = mode THEN KeyScan(src, j + 1, "u", buf, TRUE, parts)
         ELSE KeyScan(src, j + 1, mode, buf \o c, q, parts)
    ELSE IF c \in {"'", "\""} THEN KeyScan(src, j + 1, c, buf, TRUE, parts)
    ELSE IF c = "."
         THEN IF SegOk(buf, q, Len(parts))
              THEN KeyScan(src, j + 1, "u", "", FALSE, Append(parts, SegOf(buf, q)))
              ELSE BadKey(src)
    ELSE KeyScan(src, j + 1, "u", buf \o c, q, parts)

ParseKeyF == [src \in Any |-> KeyScan(src, 1, "u", "", FALSE, <<>>)]
ParseKey(src) == ParseKeyF[src]
RootOf(key) == key.parts[1].s

SegText(p) == IF IsInt(p) THEN ToString(p.i) ELSE p.s

(***************************************************************************)
(* One digging step: [ok |-> found, v |-> value]                           *)
(***************************************************************************)
DigOne(v, p) ==
  IF IsArr(v) /\ IsInt(p) /\ p.i >= 0 /\ p.i < Len(v.a)
  THEN [ok |-> TRUE, v |-> v.a[p.i + 1]]
  ELSE IF IsMap(v) /\ MHas(v, p) THEN [ok |-> TRUE, v |-> MGet(v, p)]
  ELSE [ok |-> FALSE, v |-> Null]

RECURSIVE DigAll(_, _)
DigAll(v, parts) ==
  IF Len(parts) = 0 THEN [ok |-> TRUE, v |-> v]
  ELSE LET d == DigOne(v, parts[1]) IN IF d.ok THEN DigAll(d.v, Tail(parts)) ELSE d
=============================================================================
