----------------------------- MODULE MC_Default -----------------------------
(***************************************************************************)
(* P06: the default hierarchy is used when there is no config file or when *)
(* the config has no hierarchy section, and never otherwise; where the     *)
(* config file is found.                                                   *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Sections
Kinds == <<"nofile", "nohier", "empty", "one", "dhier", "emptydhier">>
\* where the config is: root, root and a file name, HIERA_CONFIGFILE, an explicit path, or the name when there also is an explicit path
Wheres == <<"root", "cfgname", "env", "cfg", "cfgname+env">>
Sects == <<"none", "dir", "fn", "opts", "all">>
Envs == <<"", "envd">>
Sect(s) == Mp((IF s \in {"dir", "all"} THEN << <<"datadir", Str("dd")>> >> ELSE <<>>)
              \o (IF s \in {"fn", "all"} THEN << <<"data_hash", Str("h")>> >> ELSE <<>>)
              \o (IF s \in {"opts", "all"} THEN << <<"options", Mp(<< <<"o", Str("%{v}")>> >>)>> >> ELSE <<>>))
One == Mp(<< <<"name", Str("one")>>, <<"path", Str("one.yaml")>> >>)
CfgOf(k, s) ==
  Doc(Mp(<< <<"version", IntV(5)>> >> \o (IF s = "none" THEN <<>> ELSE << <<"defaults", Sect(s)>> >>)
         \o (CASE k = "one" -> << <<"hierarchy", Arr(<<One>>)>> >> [] k \in {"empty", "emptydhier"} -> << <<"hierarchy", Arr(<<>>)>> >> [] OTHER -> <<>>)
         \o (CASE k = "dhier" -> << <<"default_hierarchy", Arr(<<One>>)>> >> [] k = "emptydhier" -> << <<"default_hierarchy", Arr(<<One>>)>> >> [] OTHER -> <<>>)))
CfgPathOf(wh) == CASE wh = "root" -> "/R/hiera.yaml" [] wh \in {"cfgname", "cfgname+env"} -> "/R/named.yaml"
                   [] wh = "env" -> "/R/env.yaml" [] wh = "cfg" -> "/R/sub/explicit.yaml"
RootOfW(wh) == IF wh = "cfg" THEN "/R/sub" ELSE "/R"
Dirs == <<"", "/data", "/envd", "/dd">>
Who(p) == <<p, Doc(Mp(<< <<"who", Str(p)>> >>))>>
FilesIn(root) == Cat2([j \in 1..4 |-> [k \in 1..3 |-> Who(root \o Dirs[j] \o "/" \o <<"data.yaml", "common.yaml", "one.yaml">>[k])]])
\* decoys: configs in the places that must not be used
Decoy(wh) == LET ps == SelectSeq(<<"/R/hiera.yaml", "/R/named.yaml", "/R/env.yaml">>, LAMBDA p : p # CfgPathOf(wh))
             IN [j \in 1..Len(ps) |-> <<ps[j], Doc(Mp(<< <<"version", IntV(5)>>, <<"hierarchy", Arr(<<>>)>> >>))>>]
World(k, wh, s, e) ==
  [k |-> k, wh |-> wh, s |-> s, e |-> e,
   files |-> (IF k = "nofile" THEN <<>> ELSE << <<CfgPathOf(wh), CfgOf(k, s)>> >>) \o Decoy(wh) \o FilesIn("/R") \o FilesIn("/R/sub"),
   env |-> (IF e = "" THEN EmptyFn ELSE [x \in {"HIERA_DATADIR"} |-> e])
           @@ (IF wh \in {"env", "cfgname+env"} THEN [x \in {"HIERA_CONFIGFILE"} |-> "env.yaml"] ELSE EmptyFn),
   fns |-> [x \in {"h"} |-> Fn("data_hash", "opt", "path", EmptyMap)]]
SessOp(wh) ==
  LET b == [op |-> "session", s |-> "s", scope |-> Mp(<< <<"v", Str("web")>> >>)] IN
  CASE wh = "cfg" -> b @@ [cfg |-> "/R/sub/explicit.yaml"] [] wh \in {"cfgname", "cfgname+env"} -> b @@ [root |-> "/R", cfgname |-> "named.yaml"]
    [] OTHER -> b @@ [root |-> "/R"]
Plan(wh) == <<SessOp(wh), NInv, LO("who", Mp(<< <<"merge", Str("unique")>> >>)), L("who"), L("nosuch")>>
Init == \E k \in 1..6, wh \in 1..5, s \in 1..Sections, e \in 1..2 :
          /\ Kinds[k] = "nofile" => s = 1
          /\ MCInit(World(Kinds[k], Wheres[wh], Sects[s], Envs[e]))
Next == Follow(Plan(w.wh), "c")
MCView == <<w.k, w.wh, w.s, w.e, Len(hist)>>

(***************************************************************************)
(* The files that must be consulted, in order                              *)
(***************************************************************************)
DDir == LET r == RootOfW(w.wh) \o "/" IN
        IF w.s \in {"dir", "all"} THEN r \o "dd" ELSE IF w.e # "" THEN r \o w.e ELSE r \o "data"
Paths == LET r == RootOfW(w.wh) IN
         CASE w.k \in {"nofile", "nohier", "dhier"} -> <<r \o "/data.yaml", DDir \o "/common.yaml">>
           [] w.k = "one" -> <<DDir \o "/one.yaml">> [] OTHER -> <<>>
HashFn == w.s \in {"fn", "all"}
Opts(p) == Mp((IF w.s = "all" THEN << <<"o", Str("web")>> >> ELSE <<>>) \o << <<"path", Str(p)>> >>)
Consulted ==
  (LastIs("lookup") /\ LastOp.key = "who") =>
    /\ IF HashFn \/ Paths = <<>> THEN out.r = "nf"
       ELSE out.r = "ok" /\ VEq(out.v, IF "opts" \notin DOMAIN LastOp THEN Str(Paths[1])
                                        ELSE IF Len(Paths) = 1 THEN Str(Paths[1]) ELSE Strs(Paths))
    /\ (HashFn /\ Len(hist) = 3) =>
         /\ Len(out.calls) = Len(Paths)
         /\ \A j \in 1..Len(Paths) : out.calls[j].f = "h" /\ VEq(out.calls[j].o, Opts(Paths[j]))
=============================================================================
