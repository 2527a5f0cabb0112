------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The hiera config file: which documents are valid (version 5) and what   *)
(* hierarchy they describe.  A config is a record                          *)
(*   [root, defaults : Entry, hier : Seq(Entry), dhier : Seq(Entry)]       *)
(* and an entry                                                            *)
(*   [name, fk, fn, datadir, plugindir, pluginfile, opts, hasopts,         *)
(*    lk, locs]   with "" / <<>> for what is not given.                    *)
(***************************************************************************)
EXTENDS Values

FunctionKeys == <<"data_dig", "data_hash", "lookup_key">>
LocationKeys == <<"path", "paths", "glob", "globs", "uri", "uris", "mapped_paths">>
FunctionKeySet == {FunctionKeys[j] : j \in 1..3}
LocationKeySet == {LocationKeys[j] : j \in 1..7}
ReservedOptions == {"path", "uri"}

RECURSIVE IsData(_)
IsData(v) ==
  IF IsArr(v) THEN \A j \in 1..Len(v.a) : IsData(v.a[j])
  ELSE IF IsMap(v) THEN \A j \in 1..Len(v.m) : IsStr(v.m[j][1]) /\ IsData(v.m[j][2])
  ELSE ~IsSens(v)

IsRStr(v) == IsStr(v) /\ v.s # ""

OptChars == Letters \cup Digits \cup {"_", "-"}
\* a letter, then optionally ":", then word characters that end in a letter or digit
IsOptName(str) ==
  /\ Len(str) > 0 /\ Ch(str, 1) \in Letters
  /\ LET r0 == From(str, 2)
         r  == IF Len(r0) > 0 /\ Ch(r0, 1) = ":" THEN From(r0, 2) ELSE r0
     IN \/ Len(r0) = 0
        \/ Len(r) > 0 /\ AllIn(r, OptChars) /\ Ch(r, Len(r)) \in Letters \cup Digits

IsOptions(v) == IsMap(v) /\ \A j \in 1..Len(v.m) :
                  IsStr(v.m[j][1]) /\ IsOptName(v.m[j][1].s) /\ IsData(v.m[j][2])

StrField(v, k) == SHas(v, k) => IsRStr(SGet(v, k))
ListField(v, k, lo, hi) ==
  SHas(v, k) => LET x == SGet(v, k) IN
    IsArr(x) /\ Len(x.a) >= lo /\ Len(x.a) <= hi /\ \A j \in 1..Len(x.a) : IsRStr(x.a[j])
OnlyKeys(v, set) == \A j \in 1..Len(v.m) : IsStr(v.m[j][1]) /\ v.m[j][1].s \in set

DefaultsKeys == {"options", "data_dig", "data_hash", "lookup_key", "datadir", "plugindir"}
EntryKeys == DefaultsKeys \cup {"name", "pluginfile"} \cup LocationKeySet

DefaultsTyped(v) ==
  /\ IsMap(v) /\ OnlyKeys(v, DefaultsKeys)
  /\ SHas(v, "options") => IsOptions(SGet(v, "options"))
  /\ \A k \in DefaultsKeys \ {"options"} : StrField(v, k)

EntryTyped(v) ==
  /\ IsMap(v) /\ OnlyKeys(v, EntryKeys) /\ SHas(v, "name")
  /\ SHas(v, "options") => IsOptions(SGet(v, "options"))
  /\ \A k \in EntryKeys \ {"options", "paths", "globs", "uris", "mapped_paths"} : StrField(v, k)
  /\ ListField(v, "paths", 1, 1000) /\ ListField(v, "globs", 1, 1000) /\ ListField(v, "uris", 1, 1000)
  /\ ListField(v, "mapped_paths", 3, 3)

HierTyped(v) == IsArr(v) /\ \A j \in 1..Len(v.a) : EntryTyped(v.a[j])

ConfigTyped(v) ==
  /\ IsMap(v) /\ OnlyKeys(v, {"version", "defaults", "hierarchy", "default_hierarchy"})
  /\ SHas(v, "version") /\ SGet(v, "version") = IntV(5)
  /\ SHas(v, "defaults") => DefaultsTyped(SGet(v, "defaults"))
  /\ SHas(v, "hierarchy") => HierTyped(SGet(v, "hierarchy"))
  /\ SHas(v, "default_hierarchy") => HierTyped(SGet(v, "default_hierarchy"))

Given(v, set) == {k \in set : SHas(v, k)}
EntryOk(v) ==
  /\ Cardinality(Given(v, FunctionKeySet)) <= 1
  /\ Cardinality(Given(v, LocationKeySet)) <= 1
  /\ SHas(v, "options") => \A k \in ReservedOptions : ~SHas(SGet(v, "options"), k)
HierOk(v) ==
  /\ \A j \in 1..Len(v.a) : EntryOk(v.a[j])
  /\ \A j, k \in 1..Len(v.a) : j # k => SGet(v.a[j], "name") # SGet(v.a[k], "name")
ConfigValid0(v) ==
  /\ ConfigTyped(v)
  /\ SHas(v, "defaults") => EntryOk(SGet(v, "defaults"))
  /\ SHas(v, "hierarchy") => HierOk(SGet(v, "hierarchy"))
  /\ SHas(v, "default_hierarchy") => HierOk(SGet(v, "default_hierarchy"))
ConfigValidF == [x \in Any |-> ConfigValid0(x[1])]
ConfigValid(v) == ConfigValidF[<<v>>]

(***************************************************************************)
(* From document to config                                                 *)
(***************************************************************************)
SField(v, k) == IF SHas(v, k) THEN SGet(v, k).s ELSE ""
StrsOf(v) == [j \in 1..Len(v.a) |-> v.a[j].s]
NoEntry == [name |-> "", fk |-> "", fn |-> "", datadir |-> "", plugindir |-> "", pluginfile |-> "",
            opts |-> EmptyMap, hasopts |-> FALSE, lk |-> "", locs |-> <<>>]
EntryOf(v, name) ==
  LET fks == Given(v, FunctionKeySet)
      lks == Given(v, LocationKeySet)
      fk  == IF fks = {} THEN "" ELSE CHOOSE k \in fks : TRUE
      lk  == IF lks = {} THEN "" ELSE CHOOSE k \in lks : TRUE
  IN [name |-> name, fk |-> fk, fn |-> IF fk = "" THEN "" ELSE SGet(v, fk).s,
      datadir |-> SField(v, "datadir"), plugindir |-> SField(v, "plugindir"),
      pluginfile |-> SField(v, "pluginfile"),
      opts |-> IF SHas(v, "options") THEN SGet(v, "options") ELSE EmptyMap,
      hasopts |-> SHas(v, "options"),
      lk |-> CASE lk \in {"path", "paths"} -> "path" [] lk \in {"glob", "globs"} -> "glob"
               [] lk \in {"uri", "uris"} -> "uri" [] lk = "mapped_paths" -> "mapped" [] OTHER -> "",
      locs |-> IF lk = "" THEN <<>>
               ELSE IF lk \in {"path", "glob", "uri"} THEN <<SGet(v, lk).s>> ELSE StrsOf(SGet(v, lk))]
HierOf(v) == [j \in 1..Len(v.a) |-> EntryOf(v.a[j], SGet(v.a[j], "name").s)]

DefaultsEntry(denv) == [NoEntry EXCEPT !.fk = "data_hash", !.fn = "yaml_data",
                        !.datadir = denv.datadir, !.plugindir = denv.plugindir]
DefaultHier == << [NoEntry EXCEPT !.name = "Root", !.datadir = ".", !.lk = "path", !.locs = <<"data.yaml">>],
                  [NoEntry EXCEPT !.name = "Common", !.lk = "path", !.locs = <<"common.yaml">>] >>

\* denv = [datadir, plugindir]: the built-in defaults after considering the environment
MissingConfig(root, denv) ==
  [root |-> root, defaults |-> DefaultsEntry(denv), hier |-> DefaultHier, dhier |-> <<>>]
ConfigOf0(v, root, denv) ==
  [root |-> root,
   defaults |-> IF SHas(v, "defaults") THEN EntryOf(SGet(v, "defaults"), "defaults") ELSE DefaultsEntry(denv),
   hier |-> IF SHas(v, "hierarchy") THEN HierOf(SGet(v, "hierarchy")) ELSE DefaultHier,
   dhier |-> IF SHas(v, "default_hierarchy") THEN HierOf(SGet(v, "default_hierarchy")) ELSE <<>>]
ConfigOfF == [x \in Any |-> ConfigOf0(x[1], x[2], x[3])]
ConfigOf(v, root, denv) == ConfigOfF[<<v, root, denv>>]
=============================================================================
