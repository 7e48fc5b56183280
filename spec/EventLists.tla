---------------------------- MODULE EventLists ------------------------------
(* How events are taken from files with particle lists.                        *)
(* A file is a sequence of lines; a line has a kind k: "end" closes an event,  *)
(* "row" is a particle, "text" is a comment, "blank" is nothing.               *)
(* Files are read one after another (numbers first, first + 1, ...) or only    *)
(* one of them is; an event is what stands between two closing lines, or after *)
(* the last one if that is anything.                                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files,  \* sequence of [id, lines]
          single, \* only one file is read
          at      \* where the next event is looked for: <<number of the file, line>>
elists == <<files, single, at>>
Exists(f) == \E k \in DOMAIN files : files[k].id = f
Lines(f) == files[CHOOSE k \in DOMAIN files : files[k].id = f].lines
More(f, p) == \E n \in p..Len(Lines(f)) : Lines(f)[n].k # "blank"
EndOf(ls, p) == LET S == {n \in p..Len(ls) : ls[n].k = "end"} IN IF S = {} THEN Len(ls) + 1 ELSE CHOOSE n \in S : \A m \in S : n <= m
RECURSIVE Seek(_, _)
Seek(f, p) == IF ~Exists(f) THEN <<f, 0>> ELSE IF More(f, p) THEN <<f, p>> ELSE IF single THEN <<f, 0>> ELSE Seek(f + 1, 1)
Next1 == Seek(at[1], IF at[2] = 0 THEN 1000000 ELSE at[2])
Exhausted == Next1[2] = 0
IsRow(l) == l.k = "row"
Rows == LET n == Next1 IN SelectSeq(SubSeq(Lines(n[1]), n[2], EndOf(Lines(n[1]), n[2]) - 1), IsRow)
\* One event is taken, or there is none any more
Take == at' = (IF Exhausted THEN Next1 ELSE <<Next1[1], EndOf(Lines(Next1[1]), Next1[2]) + 1>>) /\ UNCHANGED <<files, single>>
Open(fs, s, n) == files' = fs /\ single' = s /\ at' = <<n, 1>>

\* All events from a place on, as one sequence (for what is checked in advance)
RECURSIVE EventsFrom(_, _)
EventsFrom(f, p) == LET n == Seek(f, p) IN
  IF n[2] = 0 THEN <<>>
  ELSE LET ls == Lines(n[1])
           e == EndOf(ls, n[2]) IN <<SelectSeq(SubSeq(ls, n[2], e - 1), IsRow)>> \o EventsFrom(n[1], e + 1)
=============================================================================
