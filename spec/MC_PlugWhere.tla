---------------------------- MODULE MC_PlugWhere ----------------------------
(***************************************************************************)
(* P13: which executable provides the function of an entry, for every      *)
(* combination of what the entry, the defaults section and the environment *)
(* say about its directory, its file and the function, in the global       *)
(* configuration and in that of a module.  Executables that provide the    *)
(* same functions are in all of these places and each yields its own path. *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
VARIABLE c
Dirs == <<"", "pd", "%{v}/x", "..", "/R/abs", ".">>
PFiles == <<"", "exe", "sub/../sub/exe", "/R/fixed/exe", "../up">>
OwnFns == <<"", "f", "%{fn}">>
\* the section of defaults: none, or its directory and function
Defaults == <<"none", "", "dp", "%{v}dp", "/R/dabs">>
\* HIERA_PLUGINDIR
Envs == <<"unset", "ep", "", "/R/eabs", "ep/../e q/">>
Roots == <<"/R", "/R/mods/mod">>

Entries(d) ==
  LET all == {[dir |-> x, file |-> y, fn |-> z] : x \in {Dirs[j] : j \in 1..6}, y \in {PFiles[j] : j \in 1..5}, z \in {OwnFns[j] : j \in 1..3}}
      ok == {e \in all : e.fn # "" \/ d # "none"}
      sq == SeqOf(ok)
      mine == SelectSeq([j \in 1..Len(sq) |-> <<j, sq[j]>>], LAMBDA x : Rich \/ x[1] % 3 = c.third)
  IN [j \in 1..Len(mine) |-> mine[j][2]]
EntryDoc(e, n) ==
  Mp(<< <<"name", Str("e" \o ToString(n))>> >> \o (IF e.fn = "" THEN <<>> ELSE << <<"lookup_key", Str(e.fn)>> >>)
     \o (IF e.dir = "" THEN <<>> ELSE << <<"plugindir", Str(e.dir)>> >>) \o (IF e.file = "" THEN <<>> ELSE << <<"pluginfile", Str(e.file)>> >>))
DefDoc(d) == Mp(<< <<"lookup_key", Str("g")>> >> \o (IF d = "" THEN <<>> ELSE << <<"plugindir", Str(d)>> >>))
Cfg(d, es) ==
  Doc(Mp(<< <<"version", IntV(5)>> >> \o (IF d = "none" THEN <<>> ELSE << <<"defaults", DefDoc(d)>> >>)
         \o << <<"hierarchy", Arr([j \in 1..Len(es) |-> EntryDoc(es[j], j)])>> >>))
Key == IF c.root = "/R" THEN "k" ELSE "mod::k"

(***************************************************************************)
(* The property: the path of the executable                                *)
(***************************************************************************)
FnOf(e) == CASE e.fn = "f" -> "f" [] e.fn = "%{fn}" -> "h" [] OTHER -> "g"
Plain(x) == CASE x = "%{v}/x" -> "web/x" [] x = "%{v}dp" -> "webdp" [] x = "ep/../e q/" -> "e q" [] OTHER -> x
WhereOf(e) ==
  LET dflt == IF c.d \notin {"none", ""} THEN Plain(c.d) ELSE IF c.env # "unset" THEN Plain(c.env) ELSE "plugin"
      x == IF e.dir # "" THEN Plain(e.dir) ELSE dflt
  IN CASE x \in {"/R/abs", "/R/dabs", "/R/eabs"} -> x [] x \in {"", "."} -> c.root [] x = ".." -> (IF c.root = "/R" THEN "" ELSE "/R/mods") [] OTHER -> c.root \o "/" \o x
ParentOf(dir) == CASE dir \in {"", "/R"} -> "" [] dir \in {"/R/abs", "/R/dabs", "/R/eabs"} -> "/R" [] dir = c.root -> "/R/mods" [] dir = "/R/mods" -> "/R"
                   [] dir = c.root \o "/web/x" -> c.root \o "/web" [] OTHER -> c.root
ExePathOf(e) ==
  CASE e.file = "/R/fixed/exe" -> e.file
    [] e.file = "../up" -> ParentOf(WhereOf(e)) \o "/up"
    [] e.file = "sub/../sub/exe" -> WhereOf(e) \o "/sub/exe"
    [] OTHER -> WhereOf(e) \o "/" \o (IF e.file = "" THEN FnOf(e) ELSE e.file)
\* what is outside of the directory of the test is left out
Within(p) == HasPrefix(p, "/R/")

\* every directory that is spoken of, in both roots, with all names; a directory web/x and a file web don't clash
AllDirs == <<"/R", "/R/mods", "/R/abs", "/R/dabs", "/R/eabs", "/R/fixed">> \o Cat2([j \in 1..2 |-> [k \in 1..7 |-> Roots[j] \o <<"", "/plugin", "/ep", "/pd", "/web/x", "/webdp", "/dp">>[k]]])
           \o <<"/R/e q", "/R/mods/mod/e q", "/R/web", "/R/mods/mod/web">>
AllPaths == {AllDirs[j] \o "/" \o n : j \in 1..Len(AllDirs), n \in {"f", "g", "h", "exe", "sub/exe", "up"}}
Exe(p) == [x |-> [fns |-> [n \in {"f", "g", "h"} |-> Fn("lookup_key", "table", "", Mp(<< <<Key, Str(n \o " of " \o p)>> >>))], start |-> <<"ok">>, stop |-> "ok"]]
Es == SelectSeq(Entries(c.d), LAMBDA e : Within(ExePathOf(e)))
World ==
  LET ps == SeqOf(AllPaths)
      cfg == Cfg(c.d, Es)
  IN [files |-> (IF c.root = "/R" THEN << <<"/R/hiera.yaml", cfg>> >>
                 ELSE <<CfgFile(<<Mp(<< <<"name", Str("none")>>, <<"path", Str("none.yaml")>> >>)>>), <<c.root \o "/hiera.yaml", cfg>> >>)
                \o [j \in 1..Len(ps) |-> <<ps[j], Exe(ps[j])>>],
      env |-> IF c.env = "unset" THEN EmptyFn ELSE [x \in {"HIERA_PLUGINDIR"} |-> c.env], fns |-> EmptyFn]
Sess == [op |-> "session", s |-> "s", root |-> "/R", scope |-> Mp(<< <<"v", Str("web")>>, <<"fn", Str("h")>> >>)]
        @@ (IF c.root = "/R" THEN EmptyFn ELSE [top |-> "mux", provs |-> <<"config", "module">>, modpath |-> <<"/R/mods">>])
Lk == LO(Key, Mp(<< <<"merge", Str("unique")>> >>))
Plan == <<Sess, NInv, Lk, [op |-> "procs"], Lk, [op |-> "kill", s |-> "s"], [op |-> "procs"]>>
Init == /\ \E d \in 1..5, e \in 1..5, r \in 1..2 : (Rich \/ (d + e + r) % 2 = 0) /\ c = [d |-> Defaults[d], env |-> Envs[e], root |-> Roots[r], third |-> (d + e) % 3]
        /\ MCInit(World)
Next == c' = c /\ Follow(Plan, "c")
MCView == <<c, Len(hist)>>

RECURSIVE Uniq2(_, _)
Uniq2(sq, acc) == IF Len(sq) = 0 THEN acc ELSE Uniq2(Tail(sq), IF \E j \in 1..Len(acc) : acc[j] = sq[1] THEN acc ELSE Append(acc, sq[1]))
Want == [j \in 1..Len(Es) |-> FnOf(Es[j]) \o " of " \o ExePathOf(Es[j])]
EachItsOwn == LastIs("lookup") => out.r = "ok" /\ out.v = Strs(Uniq2(Want, <<>>))
\* exactly these were started, each once
Started ==
  LastIs("procs") =>
    LET ps == {ExePathOf(Es[j]) : j \in 1..Len(Es)} IN
    /\ Len(out.v.m) = Cardinality(ps) + 1
    /\ \A p \in ps : SHas(out.v, p) /\ SGet(out.v, p).a[1] = IntV(1)
=============================================================================
