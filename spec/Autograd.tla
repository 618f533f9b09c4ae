----------------------------- MODULE Autograd -----------------------------
(***************************************************************************)
(* The autograd machine: a growing graph of tensors and the gradients on   *)
(* them.  Its transitions are the public operations: making a leaf, an     *)
(* operator or a gradient stop, AccGrad, ZeroGrad and Backward.            *)
(*                                                                         *)
(* A node is a record                                                      *)
(*   kind   "leaf", "op" or "stop"                                         *)
(*   op, p  operator and settings          (operators)                     *)
(*   args   numbers of the operand nodes   (operators, stops)              *)
(*   val    its value                                                      *)
(*   rg     whether it requires gradients                                  *)
(* A gradient is <<>> (none) or a matrix.                                  *)
(***************************************************************************)
EXTENDS Ops

NoGrad == <<>>

RgOf(ns, n) ==
  CASE n.kind = "leaf" -> n.rg
    [] n.kind = "stop" -> FALSE
    [] n.kind = "op" -> \E k \in 1..Len(n.args) : ns[n.args[k]].rg

ValOf(ns, n) ==
  CASE n.kind = "leaf" -> [sh |-> n.sh, v |-> n.v]
    [] n.kind = "stop" -> ns[n.args[1]].val
    [] n.kind = "op" -> OpFwd(n.op, n.p, Force([k \in 1..Len(n.args) |-> ns[n.args[k]].val]))

MkNode(ns, n) ==
  [kind |-> n.kind, op |-> n.op, p |-> n.p, args |-> n.args,
   rg |-> RgOf(ns, n), val |-> ValOf(ns, n)]

AddGrad(ns, n, old, g) ==
  IF ns[n].kind = "stop" THEN NoGrad
  ELSE IF old = NoGrad THEN [sh |-> ns[n].val.sh, v |-> g.v] ELSE TAdd(old, g)

SetSeq(s, k, x) == Force([j \in 1..Len(s) |-> IF j = k THEN x ELSE s[j]])

(* AccGrad *)
AccTo(ns, G, n, g) == SetSeq(G, n, AddGrad(ns, n, G[n], g))

(* ZeroGrad *)
ZeroAt(G, S) == Force([j \in 1..Len(G) |-> IF j \in S THEN NoGrad ELSE G[j]])

(* Backward: the outputs that are operators and lack the gradient they need *)
OpRoots(ns, roots) == {roots[k] : k \in {j \in 1..Len(roots) : ns[roots[j]].kind = "op"}}
Refused(ns, G, roots) ==
  \E n \in OpRoots(ns, roots) : G[n] = NoGrad /\ Size(ns[n].val) # 1

(* the operators taking part: reachable through operators that require gradients *)
Reach(ns, roots) ==
  FoldLeft(LAMBDA S, d :
             LET n == Len(ns) + 1 - d IN
             IF n \in S
             THEN S \cup {ns[n].args[k] : k \in {j \in 1..Len(ns[n].args) :
                       ns[ns[n].args[j]].kind = "op" /\ ns[ns[n].args[j]].rg}}
             ELSE S,
           {n \in OpRoots(ns, roots) : ns[n].rg}, [d \in 1..Len(ns) |-> d])

Seeded(ns, G, roots) ==
  Force([n \in 1..Len(G) |->
     IF n \in OpRoots(ns, roots) /\ G[n] = NoGrad THEN Fill(1, 1, R1) ELSE G[n]])

(* one operator hands its gradient on to its operands *)
Propagate(ns, G, n) ==
  LET nd == ns[n]
      xs == Force([k \in 1..Len(nd.args) |-> ns[nd.args[k]].val])
  IN  FoldLeft(LAMBDA H, k :
                 IF ns[nd.args[k]].rg
                 THEN AccTo(ns, H, nd.args[k], Vjp(nd.op, nd.p, xs, G[n], k))
                 ELSE H,
               G, [k \in 1..Len(nd.args) |-> k])

(* the effect of Backward: in reverse order of construction, every operator *)
(* has the gradients of all its dependents when it hands on its own         *)
BackwardFrom(ns, G, roots) ==
  IF Refused(ns, G, roots) THEN G
  ELSE LET RS == Reach(ns, roots) IN
       FoldLeft(LAMBDA H, d : LET n == Len(ns) + 1 - d IN IF n \in RS THEN Propagate(ns, H, n) ELSE H,
                Seeded(ns, G, roots), [d \in 1..Len(ns) |-> d])

(* The same gradients from their definition: the derivative of the seeded   *)
(* outputs in direction du at node n, by evaluating the graph on dual       *)
(* numbers (valid when no tensor had a gradient before the call).           *)
DualGraph(ns, n, du) ==
  FoldLeft(LAMBDA acc, k :
     LET nd == ns[k]
         v0 == IF nd.kind = "leaf" THEN nd.val
               ELSE IF nd.kind = "stop" THEN Val(acc[nd.args[1]])
               ELSE OpFwd(nd.op, nd.p, Force([a \in 1..Len(nd.args) |-> acc[nd.args[a]]]))
     IN  Append(acc, IF k = n THEN PerturbBy(Val(v0), du) ELSE v0),
     <<>>, [k \in 1..Len(ns) |-> k])
DirDer(ns, roots, n, du) ==
  LET D == DualGraph(ns, n, du)
      RECURSIVE sum(_)
      sum(S) == IF S = {} THEN R0
                ELSE LET r == CHOOSE x \in S : TRUE IN RDer(D[r].v[1]) \oplus sum(S \ {r})
  IN  sum(OpRoots(ns, roots))
=============================================================================
