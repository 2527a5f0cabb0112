------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* The arguments of the commands: how the lookup command and the REST      *)
(* server turn variables, defaults, types and files into a lookup, and     *)
(* how the value that is found is printed.                                 *)
(***************************************************************************)
EXTENDS Eval

(***************************************************************************)
(* name=value and name:value: split at the first = or : that isn't part of *)
(* ::, :=, =: or ==                                                        *)
(***************************************************************************)
Seps == {":", "="}
NL == "\n"
SplitAt0(t) ==
  LET n == Len(t)
      ok(p) == /\ p > 1 /\ p < n /\ Ch(t, p) \in Seps /\ Ch(t, p - 1) \notin Seps /\ Ch(t, p + 1) \notin Seps
               /\ ~Contains(Upto(t, p - 2), NL) /\ ~Contains(From(t, p + 2), NL)
      ps == {p \in 1..n : ok(p)}
  IN IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A q \in ps : p <= q
SplitAtF == [t \in Any |-> SplitAt0(t)]
SplitAt(t) == SplitAtF[t]

(***************************************************************************)
(* Literals: what starts with one of { [ " ' is parsed according to the    *)
(* dialect and all else is a string.  lits tells the meaning of texts that *)
(* are well-formed: <<[t |-> text, v |-> value]>>                          *)
(***************************************************************************)
LitStart == {"{", "[", "\"", "'"}
Literal(lits, text) ==
  LET t == Trim(text)
      hit == {j \in 1..Len(lits) : lits[j].t = t}
  IN IF ~(Len(t) > 0 /\ Ch(t, 1) \in LitStart) THEN [ok |-> TRUE, v |-> Str(t)]
     ELSE IF hit = {} THEN [ok |-> FALSE, v |-> Null]
     ELSE [ok |-> TRUE, v |-> lits[CHOOSE j \in hit : TRUE].v]

(***************************************************************************)
(* The scope                                                               *)
(***************************************************************************)
Bad == [ok |-> FALSE, m |-> EmptyMap]
RECURSIVE VarScope(_, _, _)
VarScope(lits, vars, acc) ==
  IF Len(vars) = 0 THEN [ok |-> TRUE, m |-> acc]
  ELSE LET p == SplitAt(vars[1])
           x == Literal(lits, From(vars[1], p + 1))
       IN IF p = 0 THEN Bad ELSE IF ~x.ok THEN Bad
          ELSE VarScope(lits, Tail(vars), MPut(acc, Str(Trim(Upto(vars[1], p - 1))), x.v))
\* the variables in files; stdin is the content of the file "-" where that is read for the first time
Nothing == [none |-> ""]
RECURSIVE FileScope(_, _, _, _)
FileScope(fs, paths, stdin, acc) ==
  IF Len(paths) = 0 THEN [ok |-> TRUE, m |-> acc, stdin |-> stdin]
  ELSE LET p == paths[1]
           c == IF p = "-" THEN stdin ELSE IF IsFile(fs, p) THEN fs[p] ELSE [bad |-> ""]
           s == IF p = "-" THEN Nothing ELSE stdin
       IN IF c = Nothing THEN FileScope(fs, Tail(paths), s, acc)
          ELSE IF "v" \notin DOMAIN c \/ ~IsMap(c.v) THEN [ok |-> FALSE, m |-> EmptyMap, stdin |-> s]
          ELSE FileScope(fs, Tail(paths), s, MPutAll(acc, c.v))
CommandScope(fs, lits, vars, varfiles, factfiles, stdin) ==
  LET v == VarScope(lits, vars, EmptyMap)
      f == FileScope(fs, varfiles, stdin, v.m)
      x == FileScope(fs, factfiles, f.stdin, EmptyMap)
  IN IF ~v.ok THEN Bad
     ELSE IF ~f.ok \/ ~x.ok THEN Bad
     ELSE [ok |-> TRUE, m |-> IF Len(factfiles) = 0 THEN f.m ELSE MPut(MPutAll(f.m, x.m), Str("facts"), x.m)]

(***************************************************************************)
(* Types: those that the conversions know and maps of them                 *)
(***************************************************************************)
TypesOf(dia) == IF dia = "pcore" THEN DOMAIN PcoreTypes ELSE ConvTypes
\* [k |-> "none" | "basic" | "map" | "bad", t, m]
TypeOf(dia, text, shapes) ==
  LET hit == {j \in 1..Len(shapes) : shapes[j].t = text} IN
  IF text = "" THEN [k |-> "none", t |-> "", m |-> EmptyMap]
  ELSE IF text \in TypesOf(dia) THEN [k |-> "basic", t |-> TypeName(dia, text), m |-> EmptyMap]
  ELSE IF hit # {} THEN [k |-> "map", t |-> "", m |-> shapes[CHOOSE j \in hit : TRUE].m]
  ELSE [k |-> "bad", t |-> "", m |-> EmptyMap]

(***************************************************************************)
(* The lookup: a is what the arguments are, x the scope.                   *)
(* a: [names, merge, type, dflt, all, ...]                                 *)
(***************************************************************************)
Strategy(a) == IF a.merge \in {"", "first"} THEN EmptyMap ELSE Map(<< <<Str("merge"), Str(a.merge)>> >>)
CommandLookup(ctx, st, a) ==
  LET ty == TypeOf(ctx.dia, a.type, a.shapes)
      d  == IF ~Given1(a.dflt) THEN [ok |-> TRUE, v |-> No] ELSE IF a.dflt.s = "" THEN [ok |-> TRUE, v |-> Str("")] ELSE Literal(a.lits, a.dflt.s)
  IN IF ty.k = "bad" \/ ~d.ok THEN Er(st)
     ELSE IF a.all THEN IF ty.k = "basic" THEN Er(st)
                        ELSE LookupAll(ctx, st, a.names, IF ty.k = "none" THEN No ELSE ty.m, Null, Null, Strategy(a), EmptyMap)
     ELSE Lookup2(ctx, st, a.names, IF ty.k = "basic" THEN ty.t ELSE "any", d.v, Null, Null, Strategy(a), No)

(***************************************************************************)
(* What is printed                                                         *)
(***************************************************************************)
Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
\* bytes for the text of strict base64, or No
Sextet(c) == Index(Alphabet, c) - 1
Quad(t) ==
  LET pad == IF HasSuffix(t, "==") THEN 2 ELSE IF HasSuffix(t, "=") THEN 1 ELSE 0
      d(j) == IF j > 4 - pad THEN 0 ELSE Sextet(Ch(t, j))
      n == ((d(1) * 64 + d(2)) * 64 + d(3)) * 64 + d(4)
      bs == <<n \div 65536, (n \div 256) % 256, n % 256>>
  IN [ok |-> /\ \A j \in 1..(4 - pad) : Contains(Alphabet, Ch(t, j))
             /\ \A j \in (4 - pad)..3 : bs[j] = 0,
      pad |-> pad, bs |-> SubSeq(bs, 1, 3 - pad)]
RECURSIVE Unbase64(_, _)
Unbase64(t, acc) ==
  IF Len(t) = 0 THEN Arr(acc)
  ELSE IF Len(t) < 4 THEN No
  ELSE LET q == Quad(Upto(t, 4)) IN
       IF ~q.ok \/ (q.pad > 0 /\ Len(t) > 4) THEN No ELSE Unbase64(From(t, 5), acc \o [j \in 1..Len(q.bs) |-> IntV(q.bs[j])])
BytesOf(v) ==
  CASE IsStr(v) -> Unbase64(Cat(SelectSeq(Chars(v.s), LAMBDA ch : ch \notin {"\n", "\r"})), <<>>)
    [] IsArr(v) -> IF \A j \in 1..Len(v.a) : IsInt(v.a[j]) /\ v.a[j].i \in 0..255 THEN v ELSE No
    [] OTHER -> No
Formats2 == {"", "yaml", "json", "s", "binary"}
\* the value that the output stands for, or No when it can't be printed
Printed(render, v) ==
  CASE render \in {"", "yaml"} -> v
    [] render = "json" -> Exchanged(v)
    [] render = "s" -> Str(Render(v))
    [] render = "binary" -> BytesOf(v)
    [] OTHER -> No
RECURSIVE StringKeyed(_)
StringKeyed(v) == CASE IsArr(v) -> \A j \in 1..Len(v.a) : StringKeyed(v.a[j])
                    [] IsMap(v) -> \A j \in 1..Len(v.m) : IsStr(v.m[j][1]) /\ StringKeyed(v.m[j][2])
                    [] OTHER -> TRUE
=============================================================================
