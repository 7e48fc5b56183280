------------------------------ MODULE Initial ---------------------------------
(* Nuclei that are taken from files.  A file is a list of nucleons; a nucleus  *)
(* of A nucleons takes the next A lines, starting again after the last one.    *)
(* Projectile and target may share one file, then they take turns.  A nucleus  *)
(* is read when it is set up, and again for each event but the first.          *)
EXTENDS Integers, Sequences
\* the lines of the k-th nucleus (from 0) of a sequence of nuclei of A lines in a file of n lines
LinesOf(k, A, n) == [j \in 1..A |-> ((k * A + j - 1) % n) + 1]
\* which nucleus of its file the nucleus `side` (1, 2) of event e (from 0) is
Turn(side, e, same) == IF same THEN 2 * e + side - 1 ELSE e
\* composition: the lines have to give the requested number of each kind
Fits(file, ls, kind, want) == \A q \in DOMAIN want : Len(SelectSeq(ls, LAMBDA l : file[l] = q)) = want[q]
=============================================================================
