---------------------------- MODULE TraverseTrace ----------------------------
(* Conformance of recorded traversals with Traverse.tla (property C14). *)
EXTENDS Traverse, RealArith, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLE i
E == Trace[i]
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)

Problems ==
  IF E.outcome # "ok" THEN <<"outcome " \o E.outcome>>
  ELSE (IF Visits(E.model, "all", E.all) THEN <<>> ELSE <<"ForEachParam">>)
    \o (IF Visits(E.model, "own", E.own) THEN <<>> ELSE <<"ForEachParamStrict">>)
    \o (IF Visits(E.model, "models", E.models) THEN <<>> ELSE <<"Apply">>)
    \o (IF Visits(E.model, "all", E.stream) THEN <<>> ELSE <<"Parameters">>)
    \o (IF Range(E.left) = Range(E.had) \ Range(E.all) THEN <<>> ELSE <<"ZeroGrad">>)

Init == i = 1
Next == i <= Len(Trace) /\ (IF Problems = <<>> THEN TRUE ELSE Rep(Problems)) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
