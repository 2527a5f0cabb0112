------------------------------ MODULE MC_Cache ------------------------------
(***************************************************************************)
(* P18: every sequence of operations on the provider cache, performed      *)
(* directly and by provider functions, by two invocations of one session   *)
(* and one of another.  What an operation returns is decided from the      *)
(* history alone: the last store of the key in that session.               *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT MaxOps
Hier == <<Mp(<< <<"name", Str("p")>>, <<"lookup_key", Str("fput")>>, <<"options", Mp(<< <<"value", Strs(<<"by", "function">>)>> >>)>> >>)>>
Hier2 == <<Mp(<< <<"name", Str("f")>>, <<"lookup_key", Str("ffail")>> >>)>>
Hier3 == <<Mp(<< <<"name", Str("g")>>, <<"data_dig", Str("fget")>> >>)>>
World == [files |-> <<F("put.yaml", Cfg5(Hier)), F("fail.yaml", Cfg5(Hier2)), F("get.yaml", Cfg5(Hier3))>>, env |-> EmptyFn,
          fns |-> [fput |-> Fn("lookup_key", "put", "value", EmptyMap), ffail |-> Fn("lookup_key", "putfail", "", EmptyMap), fget |-> Fn("data_dig", "get", "", EmptyMap)]]
\* session s with invocations i and j that put, session t with k that puts, u with f that fails, v with g that reads
S(s, c) == [op |-> "session", s |-> s, cfg |-> "/R/" \o c]
I(i, s) == [op |-> "inv", i |-> i, s |-> s]
Prefix == <<S("s", "put.yaml"), S("t", "put.yaml"), S("u", "fail.yaml"), S("v", "get.yaml"), I("i", "s"), I("j", "s"), I("k", "t"), I("f", "u"), I("e", "u"), I("g", "v"), I("h", "v")>>
SessOf == [i |-> "s", j |-> "s", k |-> "t", f |-> "u", e |-> "u", g |-> "v", h |-> "v"]
Put(i, k, v) == [op |-> "cacheput", i |-> i, k |-> k, v |-> v]
Get(i, k) == [op |-> "cacheget", i |-> i, k |-> k]
All(i, m) == [op |-> "cacheall", i |-> i, m |-> m]
Ent(i) == [op |-> "cacheentries", i |-> i]
Cp(i) == [op |-> "cachecopy", i |-> i, pfx |-> "c:"]
Lk(i, k) == [op |-> "lookup", i |-> i, key |-> k]
AB == Mp(<< <<"a", IntV(5)>>, <<"b", Arr(<<>>)>> >>)
\* groups of operations that may influence each other
G1 == {Put("i", "a", IntV(1)), Put("j", "a", Str("two")), Put("k", "a", IntV(3)), Put("j", "b", Null), Get("i", "a"), Get("j", "b"), Get("k", "a"), All("i", AB), All("k", EmptyMap),
       Ent("j"), Ent("k"), Cp("i"), Lk("i", "a"), Lk("j", "b"), Lk("k", "a")}
G2 == {Lk("f", "a"), Lk("f", "b"), Get("e", "a"), Put("e", "a", Bool(FALSE)), Put("f", "b", Sens(Str("x"))), Ent("e"), Get("f", "b"), Cp("e"),
       Lk("g", "a"), Lk("g", "b.x"), Put("h", "a", Str("")), All("h", Mp(<< <<"b", Mp(<< <<"x", IntV(1)>> >>)>> >>)), Ent("g"), Cp("h")}
VARIABLE grp
Pool == IF grp = 1 THEN G1 ELSE G2
Init == MCInit(World) /\ grp \in {1, 2}
Total == Len(Prefix) + MaxOps
Next == /\ grp' = grp
        /\ \/ Len(hist) < Len(Prefix) /\ Step(Prefix[Len(hist) + 1])
           \/ /\ Len(hist) >= Len(Prefix) /\ Len(hist) < Total
              /\ \E op \in Pool : Step(op)
              /\ IF Len(hist') = Total THEN Export(hist', "") ELSE TRUE
MCView == <<grp, [j \in 1..Len(hist) |-> hist[j].op], Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
\* the stores that an operation makes in session s: <<key, value>> pairs, in order; x is what was stored before
Stores(op, s) ==
  IF SessOf[op.i] # s THEN <<>>
  ELSE CASE op.op = "cacheput" -> << <<op.k, op.v>> >>
         [] op.op = "cacheall" -> [j \in 1..Len(op.m.m) |-> <<op.m.m[j][1].s, op.m.m[j][2]>>]
         [] op.op = "lookup" -> CASE op.i \in {"i", "j", "k"} -> << <<op.key, Strs(<<"by", "function">>)>> >>
                                  [] op.i = "f" -> << <<op.key, Str(op.key)>> >>
                                  [] OTHER -> <<>>
         [] OTHER -> <<>>
Ops(n) == [j \in 1..n |-> hist[j + Len(Prefix)].op]
\* the value of a key in session s after the first n operations: No if there is none
RECURSIVE Last(_, _, _)
Last(s, k, n) ==
  IF n = 0 THEN No
  ELSE LET op == hist[n + Len(Prefix)].op
           st == Stores(op, s)
           hit == {j \in 1..Len(st) : st[j][1] = k}
       IN IF hit # {} THEN st[CHOOSE j \in hit : TRUE][2]
          ELSE IF op.op = "cachecopy" /\ SessOf[op.i] = s /\ HasPrefix(k, "c:") /\ Last(s, From(k, 3), n - 1) # No
               THEN Last(s, From(k, 3), n - 1)
          ELSE Last(s, k, n - 1)
N == Len(hist) - Len(Prefix)
AllKeys == {"a", "b", "c:a", "c:b"}
LastWins ==
  N > 0 =>
  LET op == LastOp
      s == SessOf[op.i]
      old(k) == Last(s, k, N - 1)
      is(x) == IF x = No THEN out.r = "nf" ELSE out.r = "ok" /\ out.v = x
  IN CASE op.op = "cacheput" -> is(old(op.k))
       [] op.op = "cacheget" -> is(old(op.k))
       [] op.op \in {"cacheall", "cachecopy"} -> out.r = "ok"
       [] op.op = "cacheentries" -> /\ out.r = "ok"
                                    /\ \A k \in AllKeys : IF old(k) = No THEN ~SHas(out.v, k) ELSE SHas(out.v, k) /\ SGet(out.v, k) = old(k)
                                    /\ Len(out.v.m) = Cardinality({k \in AllKeys : old(k) # No})
       [] op.op = "lookup" -> CASE op.i \in {"i", "j", "k"} -> is(old(op.key))
                                [] op.i = "f" -> out.r = "err"
                                [] op.i = "g" -> IF op.key = "a" THEN is(old("a"))
                                                 ELSE IF IsMap(old("b")) THEN out.r = "ok" /\ out.v = IntV(1) ELSE out.r = "nf"
=============================================================================
