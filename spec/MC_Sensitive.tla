---------------------------- MODULE MC_Sensitive ----------------------------
(***************************************************************************)
(* P15: a key that is converted to Sensitive, for every shape of secret,   *)
(* every way to obtain it, every strategy and every kind of explanation.   *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
Secret == "s3cr3t"
\* shape: what the first and the second location hold, and what is to be delivered: first, unique, deep
Shapes == [
  str    |-> <<Str(Secret), Str("s3cr3t too")>>,
  arr    |-> <<Strs(<<Secret, "x">>), Strs(<<"x", "y s3cr3t">>)>>,
  map    |-> <<Mp(<< <<"a", Str(Secret)>>, <<"b", Arr(<<Str(Secret)>>)>> >>), Mp(<< <<"b", Arr(<<Str("more")>>)>>, <<"c", Str(Secret)>> >>)>>,
  mkey   |-> <<Mp(<< <<Secret, IntV(1)>> >>), Mp(<< <<Secret, IntV(2)>> >>)>>,
  part   |-> <<Str("pre %{lookup('part')}"), Str("none")>>,
  dig    |-> <<Str("pre %{lookup('parts.x.0')}"), Str("none")>>,
  alias  |-> <<Str("%{alias('parts')}"), Str("none")>>,
  nested |-> <<Arr(<<Mp(<< <<"p", Str("%{alias('part')}")>> >>)>>), Strs(<<"none">>)>>,
  lit    |-> <<Str("%{literal('s3cr3t')}"), Str("none")>>,
  var    |-> <<Str("-%{v}-"), Str("none")>>,
  vdig   |-> <<Str("-%{w.x}-"), Str("none")>>,
  other  |-> <<Str("%{alias('sec2')}"), Str("none")>>,
  \* one sensitive value within another: the rest of the outer one stays a secret
  both   |-> <<Str("%{lookup('sec2')} %{lookup('part')}"), Str("none")>>,
  pair   |-> <<Arr(<<Str("%{alias('sec2')}"), Str("-%{lookup('part')}%{v}")>>), Strs(<<"none">>)>>,
  fn     |-> <<Str("%{lookup('fromfn')}"), Str("none")>>]
Clear(sh, j) ==
  IF j = 2 THEN Shapes[sh][2]
  ELSE CASE sh \in {"part", "dig"} -> Str("pre s3cr3t") [] sh = "alias" -> Mp(<< <<"x", Arr(<<Str(Secret)>>)>> >>) [] sh = "nested" -> Arr(<<Mp(<< <<"p", Str(Secret)>> >>)>>)
         [] sh \in {"lit", "fn"} -> Str(Secret) [] sh \in {"var", "vdig"} -> Str("-s3cr3t-") [] sh = "other" -> Sens(Str(Secret))
         [] sh = "both" -> Str("sensitive [value redacted] s3cr3t") [] sh = "pair" -> Arr(<<Sens(Str(Secret)), Str("-s3cr3ts3cr3t")>>) [] OTHER -> Shapes[sh][1]
Convs == <<Str("sensitive"), Arr(<<Str("sensitive")>>)>>
Plans == [sh : DOMAIN Shapes, m : {"first", "unique", "deep"}, c : IF Rich THEN {1, 2} ELSE {1}, x : {"", "d", "do", "o"}, top : IF Rich THEN {"config", "mux"} ELSE {"config"}]
\* the keys that refer to the secret
Users == Mp(<< <<"u1", Str("<%{lookup('sec')}>")>>, <<"u2", Str("%{alias('sec')}")>>, <<"u3", Arr(<<Str("%{alias('sec')}"), Str("%{hiera('sec')}")>>)>>,
  <<"u4", Mp(<< <<"k", Str("%{alias('sec')}")>>, <<"%{lookup('sec')}", Str("%{lookup('u2')}")>> >>)>>, <<"u5", Str("%{lookup('sec.a')} %{lookup('sec.0')}")>>, <<"u6", Str("%{alias('u3')}")>>,
  <<"u7", Str("%{lookup('bad')}")>>, <<"plain", Str("open")>> >>)
Opts(p) == LET c == Convs[p.c]
               so == <<"convert_to", c>>
           IN Mp(<< <<"sec", Mp(IF p.m = "first" THEN <<so>> ELSE <<so, <<"merge", Str(p.m)>> >>)>>, <<"sec2", Mp(<<so>>)>>,
                    <<"bad", Mp(<< <<"convert_to", Arr(<<Str("sensitive"), IntV(1)>>)>>, <<"merge", Str("unique")>> >>)>> >>)
Entry(n, path) == Mp(<< <<"name", Str(n)>>, <<"path", Str(path)>> >>)
World(p) == [files |-> <<CfgFile(<<Entry("one", "a.yaml"), Entry("two", "b.yaml"), Mp(<< <<"name", Str("f")>>, <<"lookup_key", Str("fx")>> >>)>>),
    F("data/a.yaml", Doc(Map(<< <<Str("sec"), Shapes[p.sh][1]>>, <<Str("bad"), Str(Secret)>>, <<Str("sec2"), Str(Secret)>> >> \o Users.m \o << <<Str("lookup_options"), Opts(p)>> >>))),
    F("data/b.yaml", Doc(Mp(<< <<"sec", Shapes[p.sh][2]>>, <<"part", Str(Secret)>>, <<"parts", Mp(<< <<"x", Arr(<<Str(Secret)>>)>> >>)>> >>)))>>,
  env |-> EmptyFn, fns |-> [fx |-> Fn("lookup_key", "explainfor", "about to tell s3cr3t", Mp(<< <<"fromfn", Str(Secret)>> >>))]]
Keys == <<"sec", "sec.a", "u1", "u2", "u3", "u4", "u5", "u6", "u7", "bad", "sec2", "plain">>
VARIABLE plan
OpsOf(p) ==
  <<NSession @@ [scope |-> Mp(<< <<"v", Str(Secret)>>, <<"w", Mp(<< <<"x", Str(Secret)>> >>)>> >>)] @@ (IF p.top = "mux" THEN [top |-> "mux", provs |-> <<"config", "environment">>] ELSE EmptyFn),
    NInv @@ (IF p.x = "" THEN EmptyFn ELSE [x |-> p.x])>>
  \o Cat2([j \in 1..Len(Keys) |-> <<L(Keys[j]), L(Keys[j]) @@ [form |-> "string"]>>])
  \o (IF p.x = "" THEN <<>> ELSE << [op |-> "explain", i |-> "i", form |-> "text"], [op |-> "explain", i |-> "i", form |-> "tree"]>>)
  \* later lookups are explained in full
  \o <<L("part"), L("plain")>>
Init == \E p \in Plans : plan = [p |-> p, ops |-> OpsOf(p)] /\ MCInit(World(p))
Next == Follow(plan.ops, "l") /\ plan' = plan
MCView == <<plan.p, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
P == plan.p
Delivered ==
  LET a == Clear(P.sh, 1)
      b == Clear(P.sh, 2)
  IN CASE P.m = "first" -> a
       [] P.m = "unique" -> IF IsMap(a) /\ IsMap(b) THEN Arr(<<a, b>>) ELSE MergeAll("unique", <<a, b>>)
       [] P.m = "deep" -> MergeAll("deep", <<a, b>>)
Wrapped(v) == IF IsSens(v) THEN v ELSE Sens(v)
Exact == (LastIs("lookup") /\ "form" \notin DOMAIN LastOp) =>
  CASE LastOp.key \in {"sec", "u2"} -> out.r = "ok" /\ out.v = Wrapped(Delivered)
    [] LastOp.key = "sec.a" -> out.r = "nf"
    [] LastOp.key = "sec2" -> out.v = Sens(Str(Secret))
    [] LastOp.key \in {"u3", "u6"} -> out.v = Arr(<<Wrapped(Delivered), Str(SensText)>>)
    [] LastOp.key = "u1" -> out.v = Str("<" \o SensText \o ">")
    [] LastOp.key = "u4" -> out.v = Mp(<< <<"k", Wrapped(Delivered)>>, <<SensText, Str(SensText)>> >>)
    [] LastOp.key = "u5" -> out.v = Str(" ")
    [] LastOp.key \in {"bad", "u7"} -> out.r = "err"
    [] LastOp.key = "plain" -> out.v = Str("open")
    [] OTHER -> TRUE
Later == Len(hist) > 0 /\ LastIs("lookup") /\ LastOp.key \in {"part"}
InLog(lg) == \E j \in 1..Len(lg) : (Contains(lg[j].a, Secret) \/ HasText(lg[j].v, Secret))
Undisclosed ==
  (Len(hist) > 0 /\ ~Later) => /\ ~InLog(out.log)
                               /\ LastIs("explain") => ~HasText(out.v, Secret)
                               /\ (LastIs("lookup") /\ LastOp.key # "part") => ~HasText(out.v, Secret)
\* the redaction has ended
EndsWithLookup == Later /\ P.x \in {"d", "do"} => InLog(out.log)
=============================================================================
