------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Paths and files.  A file system is a function from absolute, clean      *)
(* paths to contents: [v |-> Value] (a well-formed document), [bad |-> ..] *)
(* (a malformed one).  Directories exist when a file exists below them.    *)
(***************************************************************************)
EXTENDS Values

IsAbs(p) == HasPrefix(p, "/")

RECURSIVE CleanSegs(_, _)
CleanSegs(segs, acc) ==
  IF Len(segs) = 0 THEN acc
  ELSE LET h == segs[1] IN
       CleanSegs(Tail(segs),
         IF h = "" \/ h = "." THEN acc
         ELSE IF h = ".." THEN SubSeq(acc, 1, Len(acc) - 1)
         ELSE Append(acc, h))
\* clean form of an absolute path
CleanPathF == [p \in Any |-> "/" \o JoinS(CleanSegs(Split(p, "/"), <<>>), "/")]
CleanPath(p) == CleanPathF[p]
Join(dir, p) == CleanPath(dir \o "/" \o p)
SegsOf(p) == CleanSegs(Split(p, "/"), <<>>)

RECURSIVE ParentsOf(_)
ParentsOf(segs) == IF Len(segs) = 0 THEN {"/"}
                   ELSE {"/" \o JoinS(SubSeq(segs, 1, Len(segs) - 1), "/")} \cup ParentsOf(SubSeq(segs, 1, Len(segs) - 1))
DirsOfF == [ps \in Any |-> UNION {ParentsOf(SegsOf(p)) : p \in ps}]
DirsOf(fs) == DirsOfF[DOMAIN fs]
IsFile(fs, p) == p \in DOMAIN fs
IsDir(fs, p) == p \in DirsOf(fs)
Exists(fs, p) == IsFile(fs, p) \/ IsDir(fs, p)
DirOf(p) == LET sg == SegsOf(p) IN "/" \o JoinS(SubSeq(sg, 1, Len(sg) - 1), "/")

(***************************************************************************)
(* Globs: "*", "?", "[..]" and "{..}" within a path segment, "**" for any  *)
(* number of directories.                                                  *)
(***************************************************************************)
\* position of the first c in str from j on, 0 if there is none
RECURSIVE AtOrAfter(_, _, _)
AtOrAfter(str, c, j) == IF j > Len(str) THEN 0 ELSE IF Ch(str, j) = c THEN j ELSE AtOrAfter(str, c, j + 1)
\* whether a character belongs to the class that the text between the brackets describes
RECURSIVE InClass(_, _)
InClass(cl, c) ==
  IF Len(cl) = 0 THEN FALSE
  ELSE IF Len(cl) > 2 /\ Ch(cl, 2) = "-" THEN (Ord(Ch(cl, 1)) <= Ord(c) /\ Ord(c) <= Ord(Ch(cl, 3))) \/ InClass(From(cl, 4), c)
  ELSE Ch(cl, 1) = c \/ InClass(From(cl, 2), c)
ClassMatch(cl, c) == IF Len(cl) > 0 /\ Ch(cl, 1) \in {"!", "^"} THEN ~InClass(From(cl, 2), c) ELSE InClass(cl, c)
RECURSIVE SegMatch(_, _)
SegMatch(pat, name) ==
  IF Len(pat) = 0 THEN Len(name) = 0
  ELSE IF Ch(pat, 1) = "*"
       THEN SegMatch(From(pat, 2), name) \/ (Len(name) > 0 /\ SegMatch(pat, From(name, 2)))
  ELSE IF Ch(pat, 1) = "["
       THEN LET e == AtOrAfter(pat, "]", 3) IN e # 0 /\ Len(name) > 0 /\ ClassMatch(SubSeq(pat, 2, e - 1), Ch(name, 1)) /\ SegMatch(From(pat, e + 1), From(name, 2))
  ELSE IF Ch(pat, 1) = "{"
       THEN LET e == AtOrAfter(pat, "}", 2) IN
            e # 0 /\ LET alts == Split(SubSeq(pat, 2, e - 1), ",") IN \E j \in 1..Len(alts) : SegMatch(alts[j] \o From(pat, e + 1), name)
  ELSE Len(name) > 0 /\ (Ch(pat, 1) = "?" \/ Ch(pat, 1) = Ch(name, 1)) /\ SegMatch(From(pat, 2), From(name, 2))
RECURSIVE SegsMatch(_, _)
SegsMatch(pats, segs) ==
  IF Len(pats) = 0 THEN Len(segs) = 0
  ELSE IF pats[1] = "**"
       THEN IF Len(pats) = 1 THEN Len(segs) > 0
            ELSE SegsMatch(Tail(pats), segs) \/ (Len(segs) > 0 /\ SegsMatch(pats, Tail(segs)))
  ELSE Len(segs) > 0 /\ SegMatch(pats[1], segs[1]) /\ SegsMatch(Tail(pats), Tail(segs))
GlobPathsF == [x \in Any |->
  LET pats == SegsOf(x[2])
  IN SortStrs({p \in x[1] : SegsMatch(pats, SegsOf(p))})]
GlobPaths(fs, pattern) == GlobPathsF[<<(DOMAIN fs) \cup DirsOf(fs), pattern>>]
=============================================================================
