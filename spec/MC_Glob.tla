------------------------------- MODULE MC_Glob ------------------------------
(***************************************************************************)
(* P06: which paths a glob of an entry stands for and in which order: the  *)
(* paths that match when an invocation first needs them, in the order of   *)
(* their full text, whatever the order of the directory.  Every pattern    *)
(* with the paths that it stands for is listed.                            *)
(***************************************************************************)
EXTENDS MCBase
VARIABLE c
Tops == <<".h.yaml", "B.yaml", "a b.yaml", "a.yaml", "a1.yaml", "a10.yaml", "a2.yaml", "ab.yaml">>
Tree == Tops \o <<"a/z.yaml", "b.d/x.yaml", "b.yaml", "b/a.yaml", "b/c/a.yaml", "b/c/d.json">>
As == <<"a b.yaml", "a.yaml", "a1.yaml", "a10.yaml", "a2.yaml", "ab.yaml">>
G(p, x) == [p |-> <<p>>, x |-> x]
Globs == <<
  G("*.yaml", Tops \o <<"b.yaml">>),
  G("**/a.yaml", <<"a.yaml", "b/a.yaml", "b/c/a.yaml">>),
  G("?/?.yaml", <<"a/z.yaml", "b/a.yaml">>),
  G("*/*.yaml", <<"a/z.yaml", "b.d/x.yaml", "b/a.yaml">>),
  G("b*", <<"b", "b.d", "b.yaml">>),
  G("b/**", <<"b/a.yaml", "b/c", "b/c/a.yaml", "b/c/d.json">>),
  G("b/**/*.yaml", <<"b/a.yaml", "b/c/a.yaml">>),
  G("**/c/*", <<"b/c/a.yaml", "b/c/d.json">>),
  G("[ab].yaml", <<"a.yaml", "b.yaml">>),
  G("[^a].yaml", <<"B.yaml", "b.yaml">>),
  G("a[0-9].yaml", <<"a1.yaml", "a2.yaml">>),
  G("{b,a}.yaml", <<"a.yaml", "b.yaml">>),
  G("{b,a}/*.yaml", <<"a/z.yaml", "b/a.yaml">>),
  G("**/*.{json,yml}", <<"b/c/d.json">>),
  G("nosuch*", <<>>),
  G("*.YAML", <<>>),
  G("a.yaml", <<"a.yaml">>),
  G("../data/a*.yaml", As),
  G("./b//a.yaml", <<"b/a.yaml">>),
  G("%{v}*.yaml", <<"b.yaml">>),
  G("%{v}/*", <<"b/a.yaml", "b/c">>),
  G("%{none}/*", <<".h.yaml", "B.yaml", "a">> \o As \o <<"b", "b.d", "b.yaml">>),
  G("b/", <<"b">>),
  G("/R/data/a*", <<>>),
  G("[", <<>>),
  G("a??.yaml", <<"a b.yaml", "a10.yaml">>),
  [p |-> <<"b*.yaml", "a.yaml", "*/z.yaml">>, x |-> <<"b.yaml", "a.yaml", "a/z.yaml">>],
  [p |-> <<"?.yaml", "a.yaml">>, x |-> <<"B.yaml", "a.yaml", "b.yaml", "a.yaml">>] >>
\* the order in which the files are created differs
Orders == {"up", "down"}
InOrder(sq, o) == IF o = "up" THEN sq ELSE [j \in 1..Len(sq) |-> sq[Len(sq) + 1 - j]]
Entry(j) == Mp(<< <<"name", Str("e" \o ToString(j))>>, <<"lookup_key", Str("f")>>,
                  IF Len(Globs[j].p) = 1 THEN <<"glob", Str(Globs[j].p[1])>> ELSE <<"globs", Strs(Globs[j].p)>> >>)
File(n) == F("data/" \o n, Doc(Mp(<< <<"who", Str(n)>> >>)))
World == [files |-> <<CfgFile([j \in 1..Len(Globs) |-> Entry(j)])>> \o [j \in 1..Len(Tree) |-> File(InOrder(Tree, c.o)[j])],
          env |-> EmptyFn, fns |-> [f |-> Fn("lookup_key", "table", "", EmptyMap)]]
W1(n) == [op |-> "write", p |-> "/R/data/" \o n, c |-> Doc(Mp(<< <<"who", Str(n)>> >>))]
Plan == <<NSession @@ [scope |-> Mp(<< <<"v", Str("b")>> >>)], NInv, L("k"), W1("a3.yaml"), W1("b/z.yaml"), L("k"), [op |-> "inv", i |-> "j", s |-> "s"], [op |-> "lookup", i |-> "j", key |-> "k"], L("k")>>
Init == c \in [o : Orders] /\ MCInit(World)
Next == c' = c /\ Follow(Plan, "c")
MCView == <<c, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
Before(j) == Globs[j].x
\* with the files that came later
Insert(sq, n, after) == LET k == CHOOSE k \in 1..Len(sq) : sq[k] = after IN SubSeq(sq, 1, k) \o <<n>> \o SubSeq(sq, k + 1, Len(sq))
After(j) ==
  LET p == Globs[j].p[1]
      x == Globs[j].x IN
  CASE p \in {"*.yaml", "a[0-9].yaml", "../data/a*.yaml", "%{none}/*"} -> Insert(x, "a3.yaml", "a2.yaml")
    [] p \in {"?/?.yaml", "*/*.yaml", "b/**/*.yaml", "{b,a}/*.yaml"} -> Insert(x, "b/z.yaml", IF p = "b/**/*.yaml" THEN "b/c/a.yaml" ELSE "b/a.yaml")
    [] p = "b/**" -> Append(x, "b/z.yaml")
    [] p = "%{v}/*" -> Append(x, "b/z.yaml")
    [] Len(Globs[j].p) = 3 -> <<"b.yaml", "a.yaml", "a/z.yaml", "b/z.yaml">>
    [] OTHER -> x
\* an invocation keeps to the paths that there were when it first needed them
Paths == Cat2([j \in 1..Len(Globs) |-> IF LastOp.i = "j" THEN After(j) ELSE Before(j)])
First(i) == Cardinality({j \in 1..Len(hist) : hist[j].op.op = "lookup" /\ hist[j].op.i = i}) = 1
InOrderOfText ==
  LastIs("lookup") =>
    LET keys == IF First(LastOp.i) THEN <<LOKey, "k">> ELSE <<"k">>
        n == Len(Paths)
    IN /\ out.r = "nf"
       /\ Len(out.calls) = n * Len(keys)
       /\ \A q \in 1..Len(keys) : \A j \in 1..n : out.calls[(q - 1) * n + j].k = keys[q] /\ out.calls[(q - 1) * n + j].o = Mp(<< <<"path", Str("/R/data/" \o Paths[j])>> >>)
=============================================================================
