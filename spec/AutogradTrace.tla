--------------------------- MODULE AutogradTrace ---------------------------
(***************************************************************************)
(* Conformance of recorded histories of real graphs with Autograd.tla      *)
(* (properties C02, C04, C07).  Every step of this machine is one step of  *)
(* a recorded history; the gradients of all tensors are compared after     *)
(* every Backward and ZeroGrad, the values of all tensors at the end.      *)
(***************************************************************************)
EXTENDS Autograd, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, ns, G
vars == <<i, k, ns, G>>

E == Trace[i]
Tol == IF E.dt = "f32" THEN RLit("2e-3") ELSE RLit("1e-7")

Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)

GradOk(g, o) ==
  IF g = NoGrad THEN ~o.has
  ELSE o.has /\ o.sh = g.sh /\ SeqClose(g.v, o.v, Tol)

GradProblems(H, obs) ==  \* an empty observation: nobody looked
  IF obs = <<>> THEN <<>> ELSE
  LET bad == {n \in 1..Len(H) : ~GradOk(H[n], obs[n])}
      what(n) == IF ns[n].kind = "op" THEN ns[n].op ELSE ns[n].kind
      kindOf(n) == IF H[n] = NoGrad THEN "has a gradient"
                   ELSE IF ~obs[n].has THEN "has no gradient"
                   ELSE IF obs[n].sh # H[n].sh THEN "has a gradient of wrong shape"
                   ELSE "has a wrong gradient"
  IN  IF bad = {} THEN <<>>
      ELSE <<"a tensor " \o kindOf(CHOOSE n \in bad : \A m \in bad : m <= n)>>

EndProblems ==
  (IF \A n \in 1..Len(ns) : Agrees(ns[n].val, E.ys[n], Tol) THEN <<>> ELSE <<"value of a tensor">>)
  \o (IF \A n \in 1..Len(ns) : ns[n].rg = E.rgs[n] THEN <<>> ELSE <<"RequiresGrad of a tensor">>)

(* a tensor seen through its own accessors is its value; setting an element sets it in the value *)
LookProblems ==
  LET L == E.look
      m == ns[L.n].val
      o == (L.i - 1) * Cols(m) + L.j
  IN  IF L.sh # m.sh \/ L.dims # 2 \/ L.size # Size(m) THEN <<"shape, dimensions or size of a tensor">>
      ELSE IF ~SeqClose(m.v, L.v, Tol) THEN <<"data of a tensor">>
      ELSE IF (L.item = "ok") # (Size(m) = 1) THEN <<"Item: " \o L.item>>
      ELSE IF L.item = "ok" /\ ~RClose(m.v[1], L.it, Tol) THEN <<"Item">>
      ELSE IF ~L.set THEN (IF Size(m) = 0 THEN <<>> ELSE <<"no elements">>)
      ELSE IF L.atsh # <<1, 1>> \/ ~RClose(m.v[o], L.at, Tol) THEN <<"At">>
      ELSE IF L.after.sh # m.sh \/ ~SeqClose(SetSeq(m.v, o, L.x), L.after.v, Tol) THEN <<"SetAt">>
      ELSE <<>>

Init == i = 1 /\ k = 1 /\ ns = <<>> /\ G = <<>>

NextHistory == i' = i + 1 /\ k' = 1 /\ ns' = <<>> /\ G' = <<>>

Step(a) ==
  CASE a.a = "new" -> /\ ns' = Append(ns, MkNode(ns, a.node)) /\ G' = Append(G, NoGrad)
    [] a.a = "acc" -> /\ G' = AccTo(ns, G, a.n, a.g) /\ UNCHANGED ns
    [] a.a = "zero" ->
         /\ G' = ZeroAt(G, {a.ns[j] : j \in 1..Len(a.ns)}) /\ UNCHANGED ns
         /\ LET pr == GradProblems(G', a.grads) IN IF pr = <<>> THEN TRUE ELSE Rep(<<"after ZeroGrad">> \o pr)
    [] a.a = "back" ->
         /\ G' = BackwardFrom(ns, G, a.roots) /\ UNCHANGED ns
         /\ LET pr == (IF a.err = Refused(ns, G, a.roots) THEN <<>>
                       ELSE <<IF a.err THEN "error from a valid Backward" ELSE "no error from an invalid Backward">>)
                      \o GradProblems(G', a.grads)
            IN IF pr = <<>> THEN TRUE ELSE Rep(<<"after Backward">> \o pr)

Next ==
  /\ i <= Len(Trace)
  /\ IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ NextHistory
     ELSE IF k > Len(E.acts)
     THEN /\ LET pr == EndProblems \o LookProblems IN IF pr = <<>> THEN TRUE ELSE Rep(pr)
          /\ NextHistory
     ELSE /\ Step(E.acts[k]) /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
View == <<i, k>>
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)

(* The specification is consistent with the definition of a derivative: a  *)
(* Backward from scalar outputs of a graph without gradients yields the    *)
(* directional derivatives.  Checked as an action property on the traces.  *)
Fresh == \A n \in 1..Len(G) : G[n] = NoGrad
Direction(m) == Force([e \in 1..Size(m) |-> R(((e * 37) % 11) - 5) \oslash R(3)])
DefinitionOK ==
  (i <= Len(Trace) /\ E.outcome = "ok" /\ k <= Len(E.acts) /\ E.acts[k].a = "back" /\ Fresh
     /\ ~Refused(ns, G, E.acts[k].roots)) =>
    LET H == BackwardFrom(ns, G, E.acts[k].roots) IN
    \A n \in 1..Len(ns) :
      (H[n] # NoGrad /\ ns[n].rg) =>
         RClose(RDot(H[n].v, Direction(ns[n].val)),
                DirDer(ns, E.acts[k].roots, n, Direction(ns[n].val)), RLit("1e-7"))
Counted == TLCSet(1, i - 1)
=============================================================================
