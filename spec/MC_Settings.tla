----------------------------- MODULE MC_Settings ----------------------------
(***************************************************************************)
(* P06: which function is called with which options and locations, for     *)
(* every combination of what an entry, the defaults section and the        *)
(* environment say.  One world has a level for every kind of entry; a      *)
(* lookup that merges all levels consults all of them in order.            *)
(***************************************************************************)
EXTENDS MCBase
\* the entries are dealt out to this many worlds
CONSTANT Chunks, DefaultsDirs, Picked
EFns == <<"", "h", "k", "d">>                       \* data_hash h, lookup_key k, data_dig d
EDirs == <<"", "ed", "/R/abs", "%{v}/x", "..">>
Locs == <<"none", "path", "paths", "glob", "globs", "uri", "uris", "mapped">>
DFns == <<"nosect", "", "h2", "k2">>
DDirs == <<"", "dd", "%{v}dd">>
\* HIERA_DATADIR; an empty one is the root
Envs == <<"unset", "envd", "">>
FnKey(f) == CASE f \in {"h", "h2"} -> "data_hash" [] f \in {"k", "k2"} -> "lookup_key" [] OTHER -> "data_dig"
EntryOpts(e) == Mp(<< <<"id", Str(e.id)>>, <<"tmpl", Arr(<<Str("%{v}"), IntV(1)>>)>> >>)
DOpts == Mp(<< <<"dflt", Str("from defaults %{v}")>> >>)
LocField(l) ==
  CASE l = "path" -> << <<"path", Str("f.yaml")>> >> [] l = "paths" -> << <<"paths", Strs(<<"%{v}.yaml", "nosuch.yaml", "f.yaml">>)>> >>
    [] l = "glob" -> << <<"glob", Str("g*.yaml")>> >> [] l = "globs" -> << <<"globs", Strs(<<"g?.yaml", "f*", "nosuch*">>)>> >>
    [] l = "uri" -> << <<"uri", Str("http://%{v}/x")>> >> [] l = "uris" -> << <<"uris", Strs(<<"u:1", "u:%{v}">>)>> >>
    [] l = "mapped" -> << <<"mapped_paths", Strs(<<"list", "v", "%{v}-m.yaml">>)>> >> [] OTHER -> <<>>
EntryDoc(e) ==
  Mp(<< <<"name", Str(e.id)>> >> \o (IF e.fn = "" THEN <<>> ELSE << <<FnKey(e.fn), Str(e.fn)>> >>)
     \o (IF e.opts THEN << <<"options", EntryOpts(e)>> >> ELSE <<>>)
     \o (IF e.dir = "" THEN <<>> ELSE << <<"datadir", Str(e.dir)>> >>) \o LocField(e.loc))
DefDoc(d) ==
  Mp((IF d.fn \in {"", "nosect"} THEN <<>> ELSE << <<FnKey(d.fn), Str(d.fn)>> >>)
     \o (IF d.opts THEN << <<"options", DOpts>> >> ELSE <<>>) \o (IF d.dir = "" THEN <<>> ELSE << <<"datadir", Str(d.dir)>> >>))
\* the entries of a world; the yaml function needs a location
Entries(d, chunk) ==
  LET all == {[fn |-> f, dir |-> dr, opts |-> o, loc |-> l] :
                f \in {EFns[j] : j \in 1..4}, dr \in {EDirs[j] : j \in 1..5}, o \in BOOLEAN, l \in {Locs[j] : j \in 1..8}}
      ok == {e \in all : ~(e.loc = "none" /\ e.fn = "" /\ d.fn \in {"", "nosect"})}
      sa == SeqOf(ok)
      sq == [j \in 1..((Len(sa) - chunk) \div Chunks + 1) |-> sa[(j - 1) * Chunks + chunk]]
  IN [j \in 1..Len(sq) |-> [id |-> "e" \o ToString(j), fn |-> sq[j].fn, dir |-> sq[j].dir, opts |-> sq[j].opts, loc |-> sq[j].loc]]
CfgDoc(d, es) ==
  Doc(Mp(<< <<"version", IntV(5)>> >> \o (IF d.fn = "nosect" THEN <<>> ELSE << <<"defaults", DefDoc(d)>> >>)
         \o << <<"hierarchy", Arr([j \in 1..Len(es) |-> EntryDoc(es[j])])>> >>))
Dirs == <<"/R", "/R/data", "/R/envd", "/R/ed", "/R/abs", "/R/web/x", "/R/dd", "/R/webdd", "/">>
Names == <<"f.yaml", "web.yaml", "ga.yaml", "gb.yaml", "l1-m.yaml", "l2-m.yaml">>
FilesHere == Cat2([j \in 1..8 |-> [k \in 1..6 |-> <<Dirs[j] \o "/" \o Names[k],
                   Doc(Mp(<< <<"who", Str(Dirs[j] \o "/" \o Names[k])>> >>))>>]])
Fns == [x \in {"h", "k", "d", "h2", "k2"} |-> Fn(FnKey(x), "table", "", EmptyMap)]
World(d, env, chunk) ==
  LET es == Entries(d, chunk) IN
  [chunk |-> chunk, d |-> d, envd |-> env, es |-> es, files |-> << <<"/R/hiera.yaml", CfgDoc(d, es)>> >> \o FilesHere,
   env |-> IF env = "unset" THEN EmptyFn ELSE [x \in {"HIERA_DATADIR"} |-> env], fns |-> Fns]
Plan == <<[op |-> "session", s |-> "s", root |-> "/R",
           scope |-> Mp(<< <<"v", Str("web")>>, <<"list", Arr(<<Str("l2"), Str("l1"), Str("l2")>>)>> >>)], NInv,
          LO("who", Mp(<< <<"merge", Str("unique")>> >>)), LO("who", Mp(<< <<"merge", Str("unique")>> >>))>>
Init == \E f \in 1..4, dr \in 1..3, o \in BOOLEAN, e \in 1..3, ch \in 1..Chunks :
          /\ (dr <= DefaultsDirs) /\ (ch + dr + f + e) % Picked = 0
          /\ f = 1 => (dr = 1 /\ ~o)
          /\ MCInit(World([fn |-> DFns[f], dir |-> DDirs[dr], opts |-> o], Envs[e], ch))
Next == Follow(Plan, "c")
MCView == <<w.d, w.envd, w.chunk, Len(hist)>>

(***************************************************************************)
(* The data that must be consulted                                         *)
(***************************************************************************)
Subst(x) == CASE x = "%{v}/x" -> "web/x" [] x = "%{v}dd" -> "webdd" [] OTHER -> x
DirOfEntry(e) ==
  LET dflt == IF w.d.dir # "" THEN Subst(w.d.dir) ELSE IF w.envd # "unset" THEN w.envd ELSE "data"
      x == IF e.dir # "" THEN Subst(e.dir) ELSE dflt
  IN CASE x = "/R/abs" -> x [] x = ".." -> "" [] x = "" -> "/R" [] OTHER -> "/R/" \o x
FnOfEntry(e) == IF e.fn # "" THEN e.fn ELSE IF w.d.fn \in {"", "nosect"} THEN "yaml_data" ELSE w.d.fn
OptsOfEntry(e) ==
  IF e.opts THEN Mp(<< <<"id", Str(e.id)>>, <<"tmpl", Arr(<<Str("web"), IntV(1)>>)>> >>)
  ELSE IF w.d.opts THEN Mp(<< <<"dflt", Str("from defaults web")>> >>) ELSE EmptyMap
\* the existing locations
LocsOfEntry(e) ==
  LET dir == DirOfEntry(e)
      has == dir # ""  \* the parent directory has none of the files
      P(ns) == IF has THEN [j \in 1..Len(ns) |-> dir \o "/" \o ns[j]] ELSE <<>>
  IN CASE e.loc = "path" -> P(<<"f.yaml">>) [] e.loc = "paths" -> P(<<"web.yaml", "f.yaml">>)
       [] e.loc = "glob" -> P(<<"ga.yaml", "gb.yaml">>) [] e.loc = "globs" -> P(<<"ga.yaml", "gb.yaml", "f.yaml">>)
       [] e.loc = "uri" -> <<"http://web/x">> [] e.loc = "uris" -> <<"u:1", "u:web">>
       [] e.loc = "mapped" -> P(<<"l2-m.yaml", "l1-m.yaml", "l2-m.yaml">>) [] OTHER -> <<>>
RECURSIVE Uniq1(_, _)
Uniq1(sq, acc) == IF Len(sq) = 0 THEN acc ELSE Uniq1(Tail(sq), IF \E j \in 1..Len(acc) : acc[j] = sq[1] THEN acc ELSE Append(acc, sq[1]))
CallsOfEntry(e, key) ==
  LET f == FnOfEntry(e)
      k == IF FnKey(f) = "data_hash" THEN "" ELSE key
      ls0 == LocsOfEntry(e)
      C(o) == [f |-> f, k |-> k, o |-> o]
  IN IF f = "yaml_data" THEN <<>>
     ELSE IF e.loc = "none" THEN <<C(OptsOfEntry(e))>>
     ELSE LET ls == IF k = "" THEN Uniq1(ls0, <<>>) ELSE ls0 IN [j \in 1..Len(ls) |-> C(MPut(OptsOfEntry(e), Str("path"), Str(ls[j])))]
FilesOfEntry(e) == IF FnOfEntry(e) = "yaml_data" /\ e.loc \notin {"uri", "uris"} THEN LocsOfEntry(e) ELSE <<>>
CallsAll(key) == Cat2([j \in 1..Len(w.es) |-> CallsOfEntry(w.es[j], key)])
Hashless(cs) == SelectSeq(cs, LAMBDA c : c.k # "")
SameCalls2(x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : x[j].f = y[j].f /\ x[j].k = y[j].k /\ VEq(x[j].o, y[j].o)
Consulted ==
  LastIs("lookup") =>
    LET whos == Uniq1(Cat2([j \in 1..Len(w.es) |-> FilesOfEntry(w.es[j])]), <<>>) IN
    /\ IF Len(whos) = 0 THEN out.r = "nf" ELSE out.r = "ok" /\ out.v = Strs(whos)
    \* first for lookup_options, then for the key; hashes are produced once
    /\ IF Len(hist) = 3 THEN SameCalls2(out.calls, CallsAll("lookup_options") \o Hashless(CallsAll("who")))
       ELSE SameCalls2(out.calls, Hashless(CallsAll("who")))
=============================================================================
