------------------------------ MODULE Explain -------------------------------
(***************************************************************************)
(* Explanations: the events that evaluation reports make a tree, which is  *)
(* shown as indented text or as structured data.                           *)
(***************************************************************************)
EXTENDS Keys
LOCAL SX == INSTANCE SequencesExt

PushEvents == {"lookup", "sublookup", "segment", "provider", "location", "interp", "invalid", "module", "merge"}

(***************************************************************************)
(* The tree.  A node is [t, a, o, ev, k, hv, v, bs, ts]: its kind, label and   *)
(* options, the last outcome with key and value, branches and texts.        *)
(***************************************************************************)
NewNode(e) == [ts |-> <<>>, t |-> e.e, a |-> e.a, o |-> e.v, ev |-> "", k |-> IF e.e \in {"lookup", "invalid"} THEN e.a ELSE "", hv |-> FALSE, v |-> Null, bs |-> <<>>]
XEvent(nd, e) ==
  CASE e.e = "found" -> [nd EXCEPT !.ev = "found", !.k = e.a, !.v = e.v, !.hv = TRUE]
    [] e.e = "nf" -> [nd EXCEPT !.ev = "not_found", !.k = e.a]
    [] e.e = "mergeresult" -> [nd EXCEPT !.ev = "result", !.v = e.v, !.hv = TRUE]
    [] e.e = "locnf" -> [nd EXCEPT !.ev = "location_not_found"]
    [] e.e = "modnf" -> [nd EXCEPT !.ev = "module_not_found"]
    [] e.e = "text" -> [nd EXCEPT !.ts = Append(@, e.a)]
    [] e.e = "mergesource" -> [nd EXCEPT !.bs = Append(@, NewNode(e))]
\* path: the nodes that are open, the innermost last
XReport(path, e) ==
  LET n == Len(path) IN
  IF e.e = "pop" THEN Append(SubSeq(path, 1, n - 2), [path[n - 1] EXCEPT !.bs = Append(@, path[n])])
  ELSE IF e.e \in PushEvents THEN Append(path, NewNode(e))
  ELSE [path EXCEPT ![n] = XEvent(@, e)]
RootNode == NewNode([e |-> "root", a |-> "", v |-> Null])
TreeF == [lg \in Any |-> SX!FoldLeft(XReport, <<RootNode>>, lg)[1]]
TreeOf(lg) == TreeF[lg]

XFields(label) == Split(label, "|")
FullName(label) == XFields(label)[2] \o " function '" \o XFields(label)[3] \o "'"

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
RECURSIVE XIndent(_)
XIndent(n) == IF n = 0 THEN "" ELSE "  " \o XIndent(n - 1)
NL(n) == "\n" \o XIndent(n)
RECURSIVE DumpV(_, _)
DumpV(v, n) ==
  IF IsArr(v) THEN "{" \o Cat([j \in 1..Len(v.a) |-> (IF j > 1 THEN "," ELSE "") \o NL(n + 1) \o DumpV(v.a[j], n + 1)]) \o NL(n) \o "}"
  ELSE IF IsMap(v) THEN "{" \o Cat([j \in 1..Len(v.m) |-> (IF j > 1 THEN "," ELSE "") \o NL(n + 1) \o DumpV(v.m[j][1], n + 1) \o ": " \o DumpV(v.m[j][2], n + 1)]) \o NL(n) \o "}"
  ELSE RenderIn(v)
XTexts(nd, n) == Cat([j \in 1..Len(nd.ts) |-> NL(n) \o nd.ts[j]])
XOutcome(nd, n) ==
  (CASE nd.ev = "not_found" -> NL(n) \o "No such key: \"" \o nd.k \o "\""
    [] nd.ev = "found" -> NL(n) \o "Found key: \"" \o nd.k \o "\" value: " \o DumpV(nd.v, n)
    [] OTHER -> "") \o XTexts(nd, n)
StratLabel(s) == s \o (IF s = "first" THEN " found strategy" ELSE " merge strategy")
RECURSIVE NodeText(_, _, _), XBranches(_, _, _)
\* first tells if the text is empty so far
NodeText(nd, n, first) ==
  CASE nd.t = "lookup" -> (IF first /\ n = 0 THEN "" ELSE NL(n)) \o "Searching for \"" \o nd.k \o "\"" \o XBranches(nd.bs, n + 1, FALSE)
    [] nd.t = "provider" -> NL(n) \o FullName(nd.a) \o XBranches(nd.bs, n + 1, FALSE) \o XOutcome(nd, n + 1)
    [] nd.t = "interp" -> NL(n) \o "Interpolation on \"" \o nd.a \o "\"" \o XBranches(nd.bs, n + 1, FALSE)
    [] nd.t = "invalid" -> NL(n) \o "Invalid key \"" \o nd.k \o "\""
    [] nd.t = "segment" -> XOutcome(nd, n)
    [] nd.t = "location" -> LET f == XFields(nd.a) IN
         NL(n) \o (IF f[1] = "path" THEN "Path \"" ELSE "URI \"") \o f[3] \o "\"" \o NL(n + 1) \o "Original " \o f[1] \o ": \"" \o f[2] \o "\""
         \o XBranches(nd.bs, n + 1, FALSE) \o (IF nd.ev = "location_not_found" THEN NL(n + 1) \o f[1] \o " not found" ELSE "") \o XOutcome(nd, n + 1)
    [] nd.t = "merge" ->
         IF Len(nd.bs) = 0 THEN "" ELSE IF Len(nd.bs) = 1 THEN NodeText(nd.bs[1], n, first)
         ELSE NL(n) \o "Merge strategy \"" \o StratLabel(nd.a) \o "\"" \o (IF Len(nd.o.m) > 0 THEN NL(n + 1) \o "Options: " \o DumpV(nd.o, n + 1) ELSE "")
              \o XBranches(nd.bs, n + 1, FALSE) \o (IF nd.ev = "result" THEN NL(n + 1) \o "Merged result: " \o DumpV(nd.v, n + 1) ELSE "")
    [] nd.t = "mergesource" -> NL(n) \o "Using merge options from " \o nd.a
    [] nd.t = "module" -> IF nd.ev = "module_not_found" THEN NL(n) \o "Module \"" \o nd.a \o "\" not found" ELSE XBranches(nd.bs, n, first) \o XOutcome(nd, n)
    [] nd.t = "sublookup" -> LET ps == Tail(ParseKey(nd.a).parts) IN
         NL(n) \o "Sub key: \"" \o JoinS([j \in 1..Len(ps) |-> SegText(ps[j])], ".") \o "\"" \o XBranches(nd.bs, n + 1, FALSE) \o XOutcome(nd, n + 1)
XBranches(bs, n, first) ==
  IF Len(bs) = 0 THEN "" ELSE LET t == NodeText(bs[1], n, first) IN t \o XBranches(Tail(bs), n, first /\ t = "")
\* trailing white space is dropped
RECURSIVE NoTrailing(_)
NoTrailing(str) == IF Len(str) > 0 /\ Ch(str, Len(str)) \in {" ", "\t"} THEN NoTrailing(Upto(str, Len(str) - 1)) ELSE str
ExplainText(lg) ==
  LET rt == TreeOf(lg)
      ls == Split(XBranches(rt.bs, 0, TRUE) \o XTexts(rt, 0), "\n")
  IN JoinS([j \in 1..Len(ls) |-> NoTrailing(ls[j])], "\n")

(***************************************************************************)
(* Structured data                                                         *)
(***************************************************************************)
RECURSIVE Redacted(_)
Redacted(v) ==
  IF IsSens(v) THEN Str(SensText)
  ELSE IF IsArr(v) THEN Arr([j \in 1..Len(v.a) |-> Redacted(v.a[j])])
  ELSE IF IsMap(v) THEN Map([j \in 1..Len(v.m) |-> <<Redacted(v.m[j][1]), Redacted(v.m[j][2])>>])
  ELSE v
TypeNames == [lookup |-> "Lookup", sublookup |-> "SubLookup", segment |-> "KeySegment", provider |-> "DataProvider", location |-> "Location",
              interp |-> "Interpolate", invalid |-> "InvalidKey", module |-> "Module", merge |-> "Merge", mergesource |-> "MergeSource"]
XField(k, v) == << <<Str(k), v>> >>
XWhen(cond, sq) == IF cond THEN sq ELSE <<>>
RECURSIVE NodeTree(_, _)
\* the segments of the key of a sub lookup: integers and strings
KeySegs(nd) == IF nd.t = "sublookup" THEN Tail(ParseKey(nd.a).parts) ELSE <<>>
XCommon(nd) ==
  XWhen(Len(nd.bs) > 0, XField("branches", LET sg == KeySegs(nd) IN Arr([j \in 1..Len(nd.bs) |-> NodeTree(nd.bs[j], IF j <= Len(sg) THEN sg[j] ELSE Null)])))
  \o XWhen(nd.ev # "", XField("event", Str(nd.ev))) \o XWhen(nd.k # "", XField("key", Str(nd.k))) \o XWhen(nd.hv, XField("value", Redacted(nd.v)))
  \o XWhen(Len(nd.ts) > 0, XField("texts", Arr([j \in 1..Len(nd.ts) |-> Str(nd.ts[j])])))
NodeTree(nd, seg) ==
  LET f == XFields(nd.a) IN
  Map(XField("__type", Str("hiera.explain" \o TypeNames[nd.t])) \o XCommon(nd) \o
    (CASE nd.t = "provider" -> XField("providerName", Str(FullName(nd.a)))
       [] nd.t = "interp" -> XField("expression", Str(nd.a))
       [] nd.t = "segment" -> XField("segment", seg)
       [] nd.t = "location" -> XField("location", Map(XField("__type", Str("hiera." \o f[1])) \o XField("original", Str(f[2])) \o XField("resolved", Str(f[3]))
                                                    \o XWhen(f[1] = "path", XField("exists", Bool(nd.ev # "location_not_found")))))
       [] nd.t = "merge" -> XWhen(nd.a # "first", XField("strategy", Str(nd.a))) \o XWhen(Len(nd.o.m) > 0, XField("options", nd.o))
       [] nd.t = "mergesource" -> XField("mergeSource", Str(nd.a))
       [] nd.t = "module" -> XField("moduleName", Str(nd.a))
       [] nd.t = "sublookup" -> XField("subKey", Str(nd.a))
       [] OTHER -> <<>>))
ExplainTree(lg, xo, xoo) ==
  Map(XField("__type", Str("hiera.explainer")) \o XCommon(TreeOf(lg)) \o XWhen(xo, XField("options", Bool(TRUE))) \o XWhen(xoo, XField("onlyOptions", Bool(TRUE))))
=============================================================================
