--------------------------- MODULE BackwardTrace ---------------------------
(***************************************************************************)
(* Conformance of recorded executions of Backward with the protocol of     *)
(* Backward.tla (property C01).  Every logged step of an operator's        *)
(* backward function must be a step the protocol allows in the current     *)
(* state; the gradients that operators receive are those of the protocol,  *)
(* given the weights of the sums the operators compute.                    *)
(***************************************************************************)
EXTENDS Graphs, RealArith, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, c, k,   \* trace line, call, event
          T, dep,    \* operators taking part, and who delivers to whom
          run,       \* run[n]: <<>> not started, else the gradient it was given
          del,       \* del[n]: operands delivered to
          fin,       \* operators whose function has returned
          ret        \* whether the call has returned
vars == <<i, c, k, T, dep, run, del, fin, ret>>

E == Trace[i]
C == E.calls[c]
N == Len(E.dag)
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)
Tol == RLit("1e-9")
Close(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RClose(a[j], b[j], Tol)

RootSet == {C.roots[j] : j \in 1..Len(C.roots)}
SeedOf(n) == C.seeds[CHOOSE j \in 1..Len(C.roots) : C.roots[j] = n]

(* for every operand (0 is the shared leaf) who delivers to it *)
Deps(g, S) ==
  FoldLeft(LAMBDA acc, m :
     IF m \notin S THEN acc
     ELSE FoldLeft(LAMBDA a, q :
            IF g[m][q] >= 0 THEN [a EXCEPT ![g[m][q]] = Append(@, <<m, q>>)] ELSE a,
            acc, [q \in 1..Len(g[m]) |-> q]),
     [n \in 0..Len(g) |-> <<>>], [m \in 1..Len(g) |-> m])

(* the sum of the contributions of all dependents, and the seed *)
Total(n, D, rn) ==
  LET d == Len(C.seeds[1])
      one(j) == RAdd(IF n \in RootSet THEN SeedOf(n)[j] ELSE R0,
                     RSum(Force([x \in 1..Len(D[n]) |->
                        RMul(E.w[D[n][x][1]][D[n][x][2]], rn[D[n][x][1]][j])])))
  IN  Force([j \in 1..d |-> one(j)])

Start(e) ==
  LET n == e.n
      ok == <<n \in T, run[n] = <<>>, ~ret,
              \A x \in 1..Len(dep[n]) : dep[n][x][2] \in del[dep[n][x][1]]>>
  IN  IF ok # <<TRUE, TRUE, TRUE, TRUE>> THEN
        <<IF ~ok[1] THEN "an operator that takes no part was run"
          ELSE IF ~ok[2] THEN "an operator was run twice"
          ELSE IF ~ok[3] THEN "an operator was run after the return"
          ELSE "an operator was run before its dependents had delivered">>
      ELSE IF Close(e.g, Total(n, dep, run)) THEN <<>> ELSE <<"gradient handed to an operator">>

Problems(e) ==
  CASE e.e = "start" -> Start(e)
    [] e.e = "del" -> IF e.n \in T /\ ~ret THEN <<>> ELSE <<"an operator ran after the return">>
    [] e.e = "end" -> IF ~ret THEN <<>> ELSE <<"an operator ended after the return">>
    \* whoever asks for a gradient meanwhile waits until it is complete
    [] e.e = "look" -> IF \A x \in 1..Len(dep[e.n]) : run[dep[e.n][x][1]] # <<>>
                       THEN IF Close(e.g, Total(e.n, dep, run)) THEN <<>> ELSE <<"gradient seen by another goroutine">>
                       ELSE <<"a gradient was shown before it was complete">>
    [] e.e = "ret" -> IF C.err THEN <<"error from a valid Backward">>
                      ELSE IF fin = T THEN <<>> ELSE <<"returned before all operators had run">>

EndProblems ==
  IF (\A n \in 1..N : IF n \in T THEN Close(C.grads[n], run[n])
                      ELSE IF n \in RootSet THEN TRUE
                      ELSE C.grads[n] = <<>>)
     /\ (IF dep[0] = <<>> THEN C.leaf = <<>> ELSE Close(C.leaf, Total(0, dep, run)))
  THEN <<>> ELSE <<"gradients after the return">>

Reset(j, q) ==  \* the state in which call q of line j begins
  IF j > Len(Trace) \/ Trace[j].outcome # "ok" \/ q > Len(Trace[j].calls)
  THEN /\ T' = {} /\ dep' = <<>> /\ run' = <<>> /\ del' = <<>> /\ fin' = {} /\ ret' = FALSE
  ELSE LET d == Trace[j].dag
           r == Trace[j].calls[q].roots
           S == TakingBy(d, RgSeq(d), {r[x] : x \in 1..Len(r)})
       IN /\ T' = S /\ dep' = Deps(d, S)
          /\ run' = [n \in 1..Len(d) |-> <<>>] /\ del' = [n \in 1..Len(d) |-> {}]
          /\ fin' = {} /\ ret' = FALSE
Goto(j, q) == i' = j /\ c' = q /\ k' = 1 /\ Reset(j, q)

Init == i = 0 /\ c = 1 /\ k = 1 /\ T = {} /\ dep = <<>> /\ run = <<>> /\ del = <<>> /\ fin = {} /\ ret = FALSE

Apply(e) ==
  /\ run' = IF e.e = "start" THEN [run EXCEPT ![e.n] = e.g] ELSE run
  /\ del' = IF e.e = "del" THEN [del EXCEPT ![e.n] = @ \cup {e.k}] ELSE del
  /\ fin' = IF e.e = "end" THEN fin \cup {e.n} ELSE fin
  /\ ret' = (ret \/ e.e = "ret")
  /\ k' = k + 1 /\ UNCHANGED <<i, c, T, dep>>

Next ==
  /\ i <= Len(Trace)
  /\ IF i = 0 THEN Goto(1, 1)
     ELSE IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1, 1)
     ELSE IF c > Len(E.calls) THEN Goto(i + 1, 1)
     ELSE IF k > Len(C.ev)
     THEN IF EndProblems = <<>> THEN Goto(i, c + 1) ELSE Rep(EndProblems) /\ Goto(i + 1, 1)
     ELSE LET pr == Problems(C.ev[k]) IN
          IF pr = <<>> THEN Apply(C.ev[k]) ELSE Rep(pr) /\ Goto(i + 1, 1)
Spec == Init /\ [][Next]_vars
View == <<i, c, k>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
