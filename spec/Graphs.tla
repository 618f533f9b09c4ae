------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Graphs of operators for the protocol specifications.  Operators are     *)
(* numbered 1..N in order of construction; the operands of an operator are *)
(* a sequence of earlier operators, 0 (a leaf that requires gradients) or  *)
(* -1 (a leaf or gradient stop that does not).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

BothLeaves == {0, -1}
ArgSeqs(n, maxArgs, leaves) ==
  UNION {[1..k -> (1..(n - 1)) \cup leaves] : k \in 1..maxArgs}

RECURSIVE DagsUpTo(_, _, _)
DagsUpTo(n, maxArgs, leaves) ==
  IF n = 0 THEN {<<>>}
  ELSE {Append(d, a) : d \in DagsUpTo(n - 1, maxArgs, leaves), a \in ArgSeqs(n, maxArgs, leaves)}

RECURSIVE Rg(_, _)
Rg(d, n) == IF n <= 0 THEN n = 0 ELSE \E k \in 1..Len(d[n]) : Rg(d, d[n][k])

OpArgs(d, n) == {k \in 1..Len(d[n]) : d[n][k] > 0 /\ Rg(d, d[n][k])}

RECURSIVE ReachFrom(_, _)
ReachFrom(d, S) ==
  LET T == S \cup UNION {{d[n][k] : k \in OpArgs(d, n)} : n \in S}
  IN  IF T = S THEN S ELSE ReachFrom(d, T)
(* the operators taking part in a Backward from the given outputs *)
Taking(d, roots) == ReachFrom(d, {n \in roots : Rg(d, n)})

(* the same by a single pass each, for large graphs *)
RgSeq(d) == FoldLeft(LAMBDA acc, n :
    Append(acc, \E k \in 1..Len(d[n]) : d[n][k] = 0 \/ (d[n][k] > 0 /\ acc[d[n][k]])),
    <<>>, [n \in 1..Len(d) |-> n])
TakingBy(d, rg, roots) ==
  FoldLeft(LAMBDA S, e :
     LET n == Len(d) + 1 - e IN
     IF n \in S THEN S \cup {d[n][k] : k \in {j \in 1..Len(d[n]) : d[n][j] > 0 /\ rg[d[n][j]]}} ELSE S,
     {n \in roots : rg[n]}, [n \in 1..Len(d) |-> n])

(* the pairs <<m, k>>: operator m delivers to n as its k-th operand *)
Dependents(d, T, n) == {x \in T \X (1..4) : x[2] <= Len(d[x[1]]) /\ d[x[1]][x[2]] = n}
=============================================================================
