------------------------------- MODULE MC_Yaml ------------------------------
(***************************************************************************)
(* P22: yaml2json for all small documents.                                 *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
VARIABLE c
Flt(x) == [f |-> x]
Leaves == {Null, Bool(TRUE), Bool(FALSE), IntV(0), IntV(0 - 17), [g |-> "9007199254740993"], [g |-> "-9223372036854775808"], Flt("0.1"), Flt("1.0"), Flt("-2.5E+100"), Flt("1E+21"), EmptyMap, Arr(<<>>)}
          \cup {Str(x) : x \in {"", "s", "true", "no", "null", "~", "1", "0x10", "1e3", "2001-01-01", "a: b", "- x", "# c", "[", "{a: 1}", "\"q\" 'r' \\", "é€", "<&>", " pad ", "x\n", "two\nlines", "\ttab", "|", ">", "&a", "*a", "!t", "%d", "@", "`", "?", "=", ".inf"}}
KeySet == {"k", "", "true", "1", "a.b", "é", "null", "x y", "-", "__type", "a: b"}
Small == {Str("s"), IntV(1), Null, Arr(<<>>), EmptyMap, Flt("1.0"), Str("1")}
One(x) == Arr(<<x>>)
M1(k, x) == Map(<< <<k, x>> >>)
Good == Leaves \cup {One(x) : x \in Leaves} \cup {M1(Str(k), x) : k \in KeySet, x \in IF Rich THEN Leaves ELSE Small} \cup {M1(Str("k"), x) : x \in Leaves}
        \cup {Arr(<<x, y>>) : x \in Small, y \in Small} \cup {Map(<< <<Str("z"), x>>, <<Str("a"), y>> >>) : x \in Small, y \in Small}
        \cup {Arr(<<One(One(x)), M1(Str("a"), M1(Str("b"), One(x)))>>) : x \in Leaves}
        \cup {M1(Str("__type"), Str("sensitive")), Map(<< <<Str("__type"), Str("sensitive")>>, <<Str("__value"), Str("x")>> >>)}
BadKeys == {IntV(1), Bool(TRUE), Flt("1.5"), Null}
BadDocs == {M1(k, x) : k \in BadKeys, x \in Small} \cup {One(M1(k, Str("x"))) : k \in BadKeys} \cup {M1(Str("a"), M1(k, Str("x"))) : k \in BadKeys}
       \cup {Map(<< <<Str("a"), IntV(1)>>, <<k, IntV(2)>> >>) : k \in BadKeys} \cup {M1(Str("a"), One(One(M1(k, Null)))) : k \in BadKeys}
Texts2 == {"a: b: c", "[", "{a", "a:\n\t- x", "\"x", "*nosuch", "%x", "a: 1\na: 2", "@"}
\* what a document that is written in one of the many ways stands for
W(t, x) == [text |-> t, v |-> x]
Mm(ps) == Map([j \in 1..Len(ps) |-> <<Str(ps[j][1]), ps[j][2]>>])
Written ==
  {W("", Null), W("\n", Null), W("# nothing\n", Null), W("---\n", Null), W("~\n", Null), W("null", Null), W("a", Str("a")), W("1", IntV(1)), W("'1'\n", Str("1")),
   W("--- a\n--- b\n", Str("a")), W("%YAML 1.1\n---\na: 1\n...\n", Mm(<< <<"a", IntV(1)>> >>)),
   W("a: &x 1\nb: *x\n", Mm(<< <<"a", IntV(1)>>, <<"b", IntV(1)>> >>)), W("a: &x [1]\nb: [*x, *x]\n", Mm(<< <<"a", One(IntV(1))>>, <<"b", Arr(<<One(IntV(1)), One(IntV(1))>>)>> >>)),
   W("a: &x {p: 1}\nb:\n  <<: *x\n  q: 2\n", Mm(<< <<"a", Mm(<< <<"p", IntV(1)>> >>)>>, <<"b", Mm(<< <<"p", IntV(1)>>, <<"q", IntV(2)>> >>)>> >>)),
   W("a: |\n  x\n   y\n\nb: >-\n  p\n  q\n", Mm(<< <<"a", Str("x\n y\n")>>, <<"b", Str("p q")>> >>)),
   W("- 0x1f\n- 0o17\n- 1_000\n- 1e3\n- .5\n- +1\n", Arr(<<IntV(31), IntV(15), IntV(1000), IntV(1000), Flt("0.5"), IntV(1)>>)),
   W("- !!str 1\n- !!int '2'\n- !!float 3\n", Arr(<<Str("1"), IntV(2), IntV(3)>>)), W("!!map {!!str 1: x}", Mm(<< <<"1", Str("x")>> >>)), W("[yes, NO, on, True, FALSE, Null, y]", Arr(<<Str("yes"), Str("NO"), Str("on"), Bool(TRUE), Bool(FALSE), Null, Str("y")>>)),
   W("{a: , b}", Mm(<< <<"a", Null>>, <<"b", Null>> >>)), W("a:\n- 1\n-\n  - 2\n", Mm(<< <<"a", Arr(<<IntV(1), One(IntV(2))>>)>> >>)), W("? a\n: 1\n", Mm(<< <<"a", IntV(1)>> >>)),
   W("\"\\u00e9\\n\\\"\"", Str("é\n\"")), W("'it''s'", Str("it's")), W("a: b # c\n", Mm(<< <<"a", Str("b")>> >>)), W("\"1\": x\n\"true\": y\n", Mm(<< <<"1", Str("x")>>, <<"true", Str("y")>> >>)),
   W("a: 1\r\nb: 2\r\n", Mm(<< <<"a", IntV(1)>>, <<"b", IntV(2)>> >>)), W("1: x", Map(<< <<IntV(1), Str("x")>> >>)), W("a:\n  b:\n  - true: x\n", Mm(<< <<"a", Mm(<< <<"b", One(Map(<< <<Bool(TRUE), Str("x")>> >>))>> >>)>> >>)),
   W("  a: 1\n  b: 2\n", Mm(<< <<"a", IntV(1)>>, <<"b", IntV(2)>> >>)), W("\n\n  - a\n  - b\n", Arr(<<Str("a"), Str("b")>>)), W("a: |+\n  x\n\n\n", Mm(<< <<"a", Str("x\n\n\n")>> >>)), W("a: |2\n    x\n  y", Mm(<< <<"a", Str("  x\ny")>> >>)),
   W("a: >+\n  x\n\n  y\n\n", Mm(<< <<"a", Str("x\ny\n\n")>> >>)), W("\"a\\\n   b\"", Str("ab")), W("'a\n\n  b'", Str("a\nb")), W("a: !!binary aGk=\n", Mm(<< <<"a", Str("hi")>> >>)), W("- 2001-01-01\n- 12:30\n- 1:2\n", Arr(<<Str("2001-01-01T00:00:00Z"), Str("12:30"), Str("1:2")>>)),
   W("a: b\n\n# c\n\nd: e # f", Mm(<< <<"a", Str("b")>>, <<"d", Str("e")>> >>)), W("{a: {b: {c: {d: {e: [[[[1]]]]}}}}}", Mm(<< <<"a", Mm(<< <<"b", Mm(<< <<"c", Mm(<< <<"d", Mm(<< <<"e", One(One(One(One(IntV(1)))))>> >>)>> >>)>> >>)>> >>)>> >>)),
   W("&x 1: *x\n", Map(<< <<IntV(1), IntV(1)>> >>)), W("? [a]\n: 1\n", Map(<< <<One(Str("a")), IntV(1)>> >>))}
Groups == {"good", "bad", "written", "text"}
OpsOf(g) == LET ds == CASE g = "good" -> {Doc(v) : v \in Good} [] g = "bad" -> {Doc(v) : v \in BadDocs} [] g = "written" -> Written [] OTHER -> {[bad |-> t] : t \in Texts2}
                sq == SeqOf(ds)
            IN [j \in 1..Len(sq) |-> [op |-> "y2j", stdin |-> sq[j]]]
PlanF == [g \in Groups |-> OpsOf(g)]
Init == c \in Groups /\ MCInit([files |-> <<>>, env |-> EmptyFn, fns |-> EmptyFn])
Next == c' = c /\ Follow(PlanF[c], "")
MCView == <<c, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
\* the same data, but a number is the same whether it was written as an integer or as a float
RECURSIVE Same(_, _)
Same(x, y) ==
  CASE IsArr(x) -> IsArr(y) /\ Len(x.a) = Len(y.a) /\ \A j \in 1..Len(x.a) : Same(x.a[j], y.a[j])
    [] IsMap(x) -> IsMap(y) /\ Len(x.m) = Len(y.m) /\ \A j \in 1..Len(x.m) : \E k \in 1..Len(y.m) : x.m[j][1] = y.m[k][1] /\ Same(x.m[j][2], y.m[k][2])
    [] x = Flt("1.0") -> y = IntV(1)
    [] OTHER -> x = y
RECURSIVE Keyed(_)
Keyed(v) == IF IsMap(v) THEN \A j \in 1..Len(v.m) : IsStr(v.m[j][1]) /\ Keyed(v.m[j][2]) ELSE IsArr(v) => \A j \in 1..Len(v.a) : Keyed(v.a[j])
Faithful == LastIs("y2j") => IF c = "good" \/ (c = "written" /\ Keyed(LastOp.stdin.v)) THEN out.r = "ok" /\ Same(LastOp.stdin.v, out.v) ELSE out.r = "err"
=============================================================================
