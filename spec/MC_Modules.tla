----------------------------- MODULE MC_Modules -----------------------------
(***************************************************************************)
(* P19: every layout of two module paths, with data and lookup options in  *)
(* the global hierarchy and in the modules.  The property says from the    *)
(* layout alone which config governs a key and what is found.              *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
Name == <<"name", Str("common")>>
Layouts == {"none", "nocfg", "cfg", "Cfg", "bad", "file", "cfgdir", "twin"}
ModPaths == <<<<"/R/p1", "/R/p2">>, <<"/R/gone", "/R/p2">>, <<"/R/p2", "/R/p1">>, <<>> >>
O1(k, f, v) == <<k, Mp(<< <<f, Str(v)>> >>)>>
\* an option that is a map is merged with the one that the module gives
MO(f) == <<"mod::a", Mp(<< <<"merge", Mp(<< <<f, Str("unique")>> >>)>> >>)>>
GlobalOpts == << <<>>, <<O1("mod::a", "merge", "unique")>>, <<O1("mod::a", "merge", "first"), O1("k", "merge", "unique")>>,
                 <<O1("mod::a", "convert_to", "sensitive"), O1("other::a", "merge", "unique"), O1("MOD::a", "merge", "unique")>>,
                 <<MO("note")>> >>
ModOpts == << <<>>, <<O1("mod::a", "merge", "unique")>>, <<O1("mod::a", "convert_to", "sensitive"), O1("mod::b", "convert_to", "sensitive")>>,
              \* none of these has an effect
              <<O1("k", "convert_to", "sensitive"), O1("other::a", "convert_to", "sensitive"), O1("mod", "convert_to", "sensitive"), O1("MOD::a", "convert_to", "sensitive"),
                O1("module::a", "convert_to", "sensitive"), O1("mod:", "convert_to", "sensitive")>>,
              <<O1("mod::a", "merge", "bogus")>>,
              <<MO("strategy")>> >>
WithOpts(ps, os) == IF Len(os) = 0 THEN Doc(Mp(ps)) ELSE Doc(Mp(Append(ps, <<"lookup_options", Mp(os)>>)))
A1(x) == Arr(<<Str(x)>>)
ModData(tag) == << <<"mod::a", A1(tag)>>, <<"mod::b", Str(tag)>>, <<"MOD::a", A1("upper " \o tag)>>, <<"other::a", Str("foreign")>>, <<"k", Str("foreign")>>, <<"mod", Str("foreign")>>,
                   <<"a", Str("foreign")>>, <<"module::a", Str("foreign")>>, <<"mod::c::d", Str(tag)>> >>
ModFiles(dir, lay, tag, os) ==
  LET nm == IF lay = "Cfg" THEN "MoD" ELSE "mod"
      at(p) == "/R/" \o dir \o "/" \o nm \o p
      cfg(c) == <<<<at("/hiera.yaml"), c>>, <<at("/data/c.yaml"), WithOpts(ModData(tag), os)>> >>
  IN CASE lay = "none" -> << <<"/R/" \o dir \o "/x/y", Doc(Str("z"))>> >>
       [] lay = "nocfg" -> << <<at("/data/c.yaml"), WithOpts(ModData("no"), os)>> >>
       \* others whose names differ in case only
       [] lay = "twin" -> <<<<"/R/" \o dir \o "/mod", Doc(Str("a file"))>>, <<"/R/" \o dir \o "/MOD/data/c.yaml", Doc(Mp(<< <<"mod::a", A1("other")>> >>))>>,
                            <<"/R/" \o dir \o "/Mod/hiera.yaml", Cfg5(<<Mp(<<Name, <<"path", Str("c.yaml")>> >>)>>)>>,
                            <<"/R/" \o dir \o "/Mod/data/c.yaml", WithOpts(ModData(tag), os)>> >>
       [] lay \in {"cfg", "Cfg"} -> cfg(Cfg5(<<Mp(<<Name, <<"path", Str("c.yaml")>> >>)>>))
       [] lay = "bad" -> cfg(Doc(Mp(<< <<"version", IntV(3)>> >>)))
       [] lay = "file" -> << <<"/R/" \o dir \o "/mod", Doc(Str("a file"))>> >>
       [] lay = "cfgdir" -> << <<at("/hiera.yaml/x"), Doc(Str("z"))>> >>
GData(n) == << <<>>, << <<"mod::a", A1("g")>>, <<"k", A1("gk")>> >>, << <<"mod::c::d", Str("g")>>, <<"other::a", A1("g")>>, <<"MOD::a", A1("g")>> >> >>[n]
\* the other module lies in the first path
OtherFiles == << <<"/R/p1/other/hiera.yaml", Cfg5(<<Mp(<<Name, <<"path", Str("c.yaml")>> >>)>>)>>,
                 <<"/R/p1/other/data/c.yaml", Doc(Mp(<< <<"other::a", A1("o")>>, <<"mod::a", A1("foreign")>>, <<"mod::b", A1("foreign")>>, <<"k", A1("foreign")>>, <<"none::a", A1("foreign")>>,
                     <<"lookup_options", Mp(<<O1("mod::a", "convert_to", "sensitive"), O1("mod::b", "convert_to", "sensitive"), O1("k", "convert_to", "sensitive")>>)>> >>))>> >>
Plans == [l1 : Layouts, l2 : Layouts, mp : 1..4, g : 1..3, go : 1..5, mo : 1..6]
Picked(p) == \/ Rich
             \/ (p.g = 2 /\ p.go = 1 /\ p.mo = 1)
             \/ (p.l1 \in {"cfg", "Cfg"} /\ p.l2 = "none" /\ p.mp = 1)
             \/ (p.l1 = "nocfg" /\ p.l2 = "cfg" /\ p.mp = 1 /\ p.g # 3)
             \/ (p.l1 = "cfg" /\ p.l2 = "bad" /\ p.mp = 3 /\ p.mo = 1)
World(p) == [files |-> <<CfgFile(<<Mp(<<Name, <<"path", Str("c.yaml")>> >>)>>), F("data/c.yaml", WithOpts(GData(p.g), GlobalOpts[p.go]))>>
                       \o ModFiles("p1", p.l1, "m1", ModOpts[p.mo]) \o ModFiles("p2", p.l2, "m2", ModOpts[p.mo]) \o OtherFiles,
             env |-> EmptyFn, fns |-> EmptyFn]
VARIABLE plan
Keys == <<"mod::a", "k", "other::a", "mod::b", "MOD::a", "mod", "none::a", "mod::c::d", "::a", "mod::a.0", "a", "module::a", "mod::a">>
PlanOps(p) == << NSession @@ [top |-> "mux", provs |-> <<"config", "module">>] @@ (IF Len(ModPaths[p.mp]) = 0 THEN EmptyFn ELSE [modpath |-> ModPaths[p.mp]]), NInv>>
              \o [j \in 1..Len(Keys) |-> L(Keys[j])]
Init == \E p \in Plans : Picked(p) /\ plan = [p |-> p, ops |-> PlanOps(p)] /\ MCInit(World(p))
Next == Follow(plan.ops, "") /\ plan' = plan
MCView == <<plan.p, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
Lay(d) == CASE d = "/R/p1" -> plan.p.l1 [] d = "/R/p2" -> plan.p.l2 [] OTHER -> "none"
\* where the config of module mod is: 0 nowhere
Governing(m) ==
  LET mp == ModPaths[plan.p.mp]
      h == IF m = "mod" THEN {j \in 1..Len(mp) : Lay(mp[j]) \in {"cfg", "Cfg", "bad", "twin"}} ELSE IF m = "other" THEN {j \in 1..Len(mp) : mp[j] = "/R/p1"} ELSE {}
  IN IF h = {} THEN "" ELSE mp[CHOOSE j \in h : \A k \in h : j <= k]
ModuleOf(k) == CASE k \in {"mod::a", "mod::b", "MOD::a", "mod::c::d", "mod::a.0"} -> "mod" [] k = "other::a" -> "other" [] k = "none::a" -> "none" [] k = "module::a" -> "module" [] OTHER -> ""
Tag(d) == IF d = "/R/p1" THEN "m1" ELSE "m2"
Broken(k) == ModuleOf(k) = "mod" /\ Governing("mod") # "" /\ Lay(Governing("mod")) = "bad"
FromGlobal(k) == LET d == GData(plan.p.g)
                     h == {j \in 1..Len(d) : d[j][1] = k} IN IF h = {} THEN <<>> ELSE <<d[CHOOSE j \in h : TRUE][2]>>
FromModule(k) ==
  LET g == Governing(ModuleOf(k)) IN
  IF g = "" THEN <<>>
  ELSE CASE k \in {"mod::a"} -> <<A1(Tag(g))>> [] k = "MOD::a" -> <<A1("upper " \o Tag(g))>> [] k \in {"mod::b", "mod::c::d"} -> <<Str(Tag(g))>> [] k = "other::a" -> <<A1("o")>> [] OTHER -> <<>>
OptIn(os, k, f) == LET h == {j \in 1..Len(os) : os[j][1] = k /\ SHas(os[j][2], f)} IN IF h = {} THEN "" ELSE LET o == SGet(os[CHOOSE j \in h : TRUE][2], f) IN CASE IsStr(o) -> o.s [] SHas(o, "strategy") -> "{strategy}" [] OTHER -> "{note}"
OptFor(k, f) ==
  LET g == OptIn(GlobalOpts[plan.p.go], k, f)
      m == IF k \in {"mod::a", "mod::b"} /\ Governing("mod") # "" THEN OptIn(ModOpts[plan.p.mo], k, f) ELSE ""
  IN CASE g = "{note}" -> (IF m = "{strategy}" THEN "unique" ELSE "bogus")
       [] g = "" -> (IF m = "{strategy}" THEN "unique" ELSE m)
       [] OTHER -> g
Expect(k) ==
  LET vs == FromGlobal(k) \o FromModule(k)
      st == OptFor(k, "merge")
      v == IF st = "unique" /\ Len(vs) = 2 THEN Arr(vs[1].a \o vs[2].a) ELSE vs[1]
  IN IF Broken(k) \/ st = "bogus" THEN [r |-> "err", v |-> Null]
     ELSE IF Len(vs) = 0 THEN [r |-> "nf", v |-> Null]
     ELSE [r |-> "ok", v |-> IF OptFor(k, "convert_to") = "sensitive" THEN Sens(v) ELSE v]
Base(k) == IF k = "mod::a.0" THEN "mod::a" ELSE k
Dig0(k, e) == IF k # "mod::a.0" \/ e.r # "ok" THEN e ELSE IF IsSens(e.v) THEN [r |-> "nf", v |-> Null] ELSE [r |-> "ok", v |-> e.v.a[1]]
Confined == LastIs("lookup") => LET e == Dig0(LastOp.key, Expect(Base(LastOp.key))) IN out.r = e.r /\ out.v = e.v
=============================================================================
