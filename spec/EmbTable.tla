------------------------------- MODULE EmbTable -------------------------------
(***************************************************************************)
(* An embedding table (property C18): for each row its value, the gradient *)
(* accumulated through look-ups of the row since its last reset (<<>> if   *)
(* there is none), and whether it requires a gradient.                     *)
(*                                                                         *)
(* Operations are records; Apply(T, o) is the table after o.               *)
(*   acc     gradients gs[k] given to look-ups of the rows rows[k]         *)
(*   back    Backward from a sum of terms with output gradient gy:         *)
(*           "lin": c * row a; "prod": row a * row b (element-wise)        *)
(*   zero    resets of the rows rows, by look-up or directly               *)
(*   zeroall reset of the table                                            *)
(*   step    an optimization step: value - lr * gradient, then a reset     *)
(*   replace the row rows[1] gets the value gs[1]                          *)
(*   freeze  the rows rows do or do not require gradients from now on      *)
(*   reload  save and continue with the table that is loaded               *)
(*   look    look-ups only                                                 *)
(* Indices outside the table make a look-up fail as a whole.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith, SequencesExt, Functions

Zip2(F(_, _), a, b) == Force([k \in 1..Len(a) |-> F(a[k], b[k])])
Plus(g, d) == IF g = <<>> THEN d ELSE Zip2(RAdd, g, d)
AccRow(T, r, d) == [T EXCEPT ![r].g = Plus(@, d)]

Size(T) == Len(T)
Valid(T, rows) == \A k \in 1..Len(rows) : rows[k] \in 1..Size(T)

(* the contributions of one term to the gradients of its rows *)
TermGrads(T, t, gy) ==
  IF t.kind = "lin" THEN <<<<t.a, Force([k \in 1..Len(gy) |-> t.c \otimes gy[k]])>>>>
  ELSE <<<<t.a, Zip2(RMul, gy, T[t.b].v)>>, <<t.b, Zip2(RMul, gy, T[t.a].v)>>>>
BackRow(T, acc, c) == IF T[c[1]].rg THEN AccRow(acc, c[1], c[2]) ELSE acc
Back(T, terms, gy) ==
  FoldLeft(LAMBDA acc, t : FoldLeft(LAMBDA a, c : BackRow(T, a, c), acc, TermGrads(T, t, gy)), T, terms)

Reset(T, S) == [r \in 1..Size(T) |-> IF r \in S THEN [T[r] EXCEPT !.g = <<>>] ELSE T[r]]
Holding(T) == {r \in 1..Size(T) : T[r].g # <<>>}
StepRow(row, lr) ==
  IF row.g = <<>> THEN row
  ELSE [row EXCEPT !.v = Zip2(LAMBDA x, d : x \ominus (lr \otimes d), row.v, row.g), !.g = <<>>]

Rng(s) == {s[k] : k \in 1..Len(s)}
Refused(T, o) == ~Valid(T, o.rows)
Apply(T, o) ==
  IF Refused(T, o) THEN T
  ELSE CASE o.op = "acc" -> FoldLeft(LAMBDA a, k : AccRow(a, o.rows[k], o.gs[k]), T, [k \in 1..Len(o.rows) |-> k])
         [] o.op = "back" -> Back(T, o.terms, o.gs[1])
         [] o.op = "zero" -> Reset(T, Rng(o.rows))
         [] o.op \in {"zeroall", "reload"} -> Reset(T, 1..Size(T))
         [] o.op = "step" -> [r \in 1..Size(T) |-> StepRow(T[r], o.lr)]
         [] o.op = "replace" -> [T EXCEPT ![o.rows[1]].v = o.gs[1], ![o.rows[1]].g = <<>>]
         [] o.op = "freeze" -> [r \in 1..Size(T) |-> IF r \in Rng(o.rows) THEN [T[r] EXCEPT !.rg = o.on] ELSE T[r]]
         [] OTHER -> T
===============================================================================
