------------------------------ MODULE Plugins ------------------------------
(***************************************************************************)
(* Plugin executables and their processes.  An executable is a file with   *)
(* content [x |-> [fns, start, stop]]: the functions that it provides, how *)
(* its first, second, ... start goes (the last one repeats) and how it     *)
(* reacts to the request to stop.                                          *)
(*                                                                         *)
(* pw: what there is outside of the sessions:                              *)
(*   starts: path -> how often the executable was started                  *)
(*   procs:  process -> [x, st]; st: "run", "zombie" (ended but not        *)
(*           reaped) or "gone".  A process is <<path, number of start>>    *)
(* pl: what a session knows:                                               *)
(*   reg: path -> process, the processes that it started                   *)
(*   lf:  <<path, function>> -> process, the functions that it loaded      *)
(***************************************************************************)
EXTENDS Files

NoWorld == [starts |-> [x \in {} |-> x], procs |-> [x \in {} |-> x]]
NoPlugs == [reg |-> [x \in {} |-> x], lf |-> [x \in {} |-> x]]

\* ways to start that provide what is needed; "exited": the process does so and then ends
GoodStarts == {"ok", "nonet", "noisy", "exited"}
\* and those that don't: it ends or writes something else, remains silent, closes its output or ignores signals while doing so
BadStarts == {"exit", "garbage", "partial", "version", "noversion", "noaddress", "nofunctions", "badfunctions", "badnames", "badname",
              "closed", "array", "silent", "silentdeaf", "dribble"}

IsExe(fs, p) == IsFile(fs, p) /\ "x" \in DOMAIN fs[p]
StartKind(x, n) == x.start[IF n < Len(x.start) THEN n ELSE Len(x.start)]

\* a session starts an executable; ok tells if it can be used
StartPlugin(fs, pl, pw, path) ==
  IF ~IsExe(fs, path) THEN [ok |-> FALSE, pl |-> pl, pw |-> pw]
  ELSE LET x == fs[path].x
           n == 1 + (IF path \in DOMAIN pw.starts THEN pw.starts[path] ELSE 0)
           k == StartKind(x, n)
           p == <<path, n>>
           good == k \in GoodStarts
           s == IF k = "exited" THEN "zombie" ELSE IF good THEN "run" ELSE "gone"
       IN [ok |-> good,
           pl |-> IF good THEN [pl EXCEPT !.reg = (path :> p) @@ @] ELSE pl,
           pw |-> [starts |-> (path :> n) @@ pw.starts, procs |-> (p :> [x |-> x, st |-> s]) @@ pw.procs]]

\* the function is loaded once: from the process that runs, which is started if there is none
LoadPlugin(fs, pl, pw, path, fn) ==
  IF <<path, fn>> \in DOMAIN pl.lf THEN [ok |-> TRUE, pl |-> pl, pw |-> pw]
  ELSE LET s == IF path \in DOMAIN pl.reg THEN [ok |-> TRUE, pl |-> pl, pw |-> pw] ELSE StartPlugin(fs, pl, pw, path)
           p == s.pl.reg[path]
           x == s.pw.procs[p].x
       IN IF ~s.ok THEN s
          ELSE IF fn \notin DOMAIN x.fns THEN [s EXCEPT !.ok = FALSE]
          ELSE [s EXCEPT !.pl = [@ EXCEPT !.lf = [q \in {<<path, f>> : f \in DOMAIN x.fns} |-> p] @@ @]]

Ended(pw, ps, s) == [pw EXCEPT !.procs = [p \in DOMAIN @ |-> IF p \in ps THEN [@[p] EXCEPT !.st = s] ELSE @[p]]]
\* the processes that a session started end, whatever they do
KillAll(pl, pw) ==
  [pl |-> [pl EXCEPT !.reg = [x \in {} |-> x]], pw |-> Ended(pw, {pl.reg[path] : path \in DOMAIN pl.reg}, "gone")]

Count(pw, path, s) == Cardinality({p \in DOMAIN pw.procs : p[1] = path /\ pw.procs[p].st = s})
\* per executable that was started: how often, and how many processes there are
ProcessReport(pw) ==
  LET ps == SortStrs(DOMAIN pw.starts)
  IN Map([j \in 1..Len(ps) |-> <<Str(ps[j]), Arr(<<IntV(pw.starts[ps[j]]), IntV(Count(pw, ps[j], "run")), IntV(Count(pw, ps[j], "zombie"))>>)>>]
         \* calls leave no connections behind
         \o << <<Str("connections"), IntV(0)>> >>)

\* the executable of a hierarchy entry
PluginPath(e) ==
  LET f == IF e.pluginfile = "" THEN e.fn ELSE e.pluginfile IN IF IsAbs(f) THEN CleanPath(f) ELSE Join(e.plugindir, f)

\* responses that aren't a value; "die": the process ends instead of responding
BadCalls == {"status", "garbage", "empty", "drop", "truncated", "slow", "die"}

\* options and values are exchanged as JSON, in which a float without fraction is an integer
\* the digits of a float that is a whole number, which is printed like an integer
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
WholeText0(f) ==
  LET es == {j \in 1..Len(f) : Ch(f, j) = "E"}
      ds == {j \in 1..Len(f) : Ch(f, j) = "."}
      m == IF es = {} THEN f ELSE Upto(f, (CHOOSE j \in es : TRUE) - 1)
      x == IF es = {} THEN 0 ELSE LET e == From(f, (CHOOSE j \in es : TRUE) + 1) IN IF HasPrefix(e, "+") THEN IntOf(From(e, 2)) ELSE 99
      int == IF ds = {} THEN m ELSE Upto(m, (CHOOSE j \in ds : TRUE) - 1)
      frac == IF ds = {} THEN "" ELSE LET r == From(m, (CHOOSE j \in ds : TRUE) + 1) IN IF r = "0" THEN "" ELSE r
  IN IF x > 20 \/ Len(frac) > x THEN "" ELSE int \o frac \o Zeros(x - Len(frac))
WholeText == [x \in Any |-> WholeText0(x[1])]
Integral(f) == LET d == WholeText[<<f>>] IN IF d = "" THEN <<>> ELSE <<IF IsInt32(d) THEN IntV(IntOf(d)) ELSE [g |-> d]>>
RECURSIVE Exchanged(_)
Exchanged(v) ==
  IF IsFlt(v) THEN LET n == Integral(v.f) IN IF Len(n) = 0 THEN v ELSE n[1]
  ELSE IF IsArr(v) THEN Arr([j \in 1..Len(v.a) |-> Exchanged(v.a[j])])
  ELSE IF IsMap(v) THEN Map([j \in 1..Len(v.m) |-> <<Exchanged(v.m[j][1]), Exchanged(v.m[j][2])>>])
  ELSE IF "z" \in DOMAIN v THEN Sens(Exchanged(v.z))
  ELSE v
=============================================================================
