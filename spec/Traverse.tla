------------------------------ MODULE Traverse ------------------------------
(***************************************************************************)
(* The parameters and sub-models of a model (property C14).  A model is a  *)
(* tree of parts: "model" (with the parts that are its exported fields, in *)
(* order), "list" (slice or array), "map" (unordered), "param", "trav" (a  *)
(* part with a traversal of its own, being a model itself or not) and      *)
(* "other" (anything else, nil included).  A walk of the tree has one of   *)
(* three views: "all" parameters, a model's "own", or the "models".        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Size(_, _, _), SizeAll(_, _, _), Fits(_, _, _, _), FitsAll(_, _, _, _)

(* number of visits in a part; root says whether the part is the model walked *)
Size(p, view, root) ==
  CASE p.k = "param" -> IF view = "models" THEN 0 ELSE 1
    [] p.k = "trav" -> IF view = "models" THEN (IF p.model THEN 1 ELSE 0)
                       ELSE IF view = "own" /\ p.model /\ ~root THEN 0 ELSE Len(p.ps)
    [] p.k = "model" -> IF view = "own" /\ ~root THEN 0
                        ELSE (IF view = "models" THEN 1 ELSE 0) + SizeAll(p.parts, view, 1)
    [] p.k \in {"list", "map"} -> SizeAll(p.parts, view, 1)
    [] OTHER -> 0
SizeAll(parts, view, j) ==
  IF j > Len(parts) THEN 0 ELSE Size(parts[j], view, FALSE) + SizeAll(parts, view, j + 1)

Perms(s) == {q \in [1..Len(s) -> 1..Len(s)] : \A a, b \in 1..Len(s) : a # b => q[a] # q[b]}

(* seg is an admissible sequence of visits of the part *)
Fits(p, seg, view, root) ==
  CASE p.k = "param" -> seg = (IF view = "models" THEN <<>> ELSE <<p.id>>)
    [] p.k = "trav" -> seg = (IF view = "models" THEN (IF p.model THEN <<p.id>> ELSE <<>>)
                              ELSE IF view = "own" /\ p.model /\ ~root THEN <<>> ELSE p.ps)
    [] p.k = "model" ->
         IF view = "own" /\ ~root THEN seg = <<>>
         ELSE IF view = "models"
         THEN Len(seg) > 0 /\ seg[1] = p.id /\ FitsAll(p.parts, Tail(seg), view, 1)
         ELSE FitsAll(p.parts, seg, view, 1)
    [] p.k = "list" -> FitsAll(p.parts, seg, view, 1)
    [] p.k = "map" -> \E q \in Perms(p.parts) : FitsAll([j \in 1..Len(p.parts) |-> p.parts[q[j]]], seg, view, 1)
    [] OTHER -> seg = <<>>
FitsAll(parts, seg, view, j) ==
  IF j > Len(parts) THEN seg = <<>>
  ELSE LET n == Size(parts[j], view, FALSE) IN
       /\ n <= Len(seg)
       /\ Fits(parts[j], SubSeq(seg, 1, n), view, FALSE)
       /\ FitsAll(parts, SubSeq(seg, n + 1, Len(seg)), view, j + 1)

Visits(p, view, seg) == Len(seg) = Size(p, view, TRUE) /\ Fits(p, seg, view, TRUE)
Range(s) == {s[j] : j \in 1..Len(s)}
=============================================================================
