----------------------------- MODULE GradTrace -----------------------------
(***************************************************************************)
(* Recorded concurrent histories of gradients against the abstract cells   *)
(* of GradCell.tla (property C08): a history is admitted iff its           *)
(* operations can be put into a sequential order, compatible with the real *)
(* time order of calls and returns, that explains every result.  All such  *)
(* orders are searched; an admitted history is reported as ACCEPT.         *)
(*                                                                         *)
(* An event is [t |-> "call" or "ret", id, op, row, x, r]; op is one of    *)
(* acc, zero, has, get (on one row) or count (of rows with a gradient).    *)
(***************************************************************************)
EXTENDS GradCell, RealArith, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, cells, open, lin   \* open: called, not returned; lin[id]: result once it took effect
tvars == <<i, k, cells, open, lin>>

E == Trace[i]
Ev == E.ev[k]
TInit ==
  /\ i \in {j \in 1..Len(Trace) : Trace[j].outcome = "ok" /\ Trace[j].mode = "hist"}
  /\ k = 1 /\ cells = [r \in 1..Trace[i].rows |-> 0] /\ open = {} /\ lin = <<>>
  /\ Init

CallEv(j) == E.ev[j]
Take(o) ==  \* the operation called by event o takes effect
  LET e == CallEv(o) IN
  IF e.op = "count"
  THEN /\ lin' = (o :> Cardinality({r \in DOMAIN cells : cells[r] # 0})) @@ lin
       /\ UNCHANGED cells
  ELSE LET f == Effect(cells[e.row], e.op, e.x) IN
       /\ cells' = [cells EXCEPT ![e.row] = f[1]]
       /\ lin' = (o :> f[2]) @@ lin

TNext ==
  /\ k <= Len(E.ev)
  /\ UNCHANGED <<vars, i>>
  /\ IF Ev.t = "call"
     THEN k' = k + 1 /\ open' = open \cup {k} /\ UNCHANGED <<cells, lin>>
     ELSE IF Ev.id \in DOMAIN lin   \* id: the number of the event of its call
     THEN /\ lin[Ev.id] = Ev.r
          /\ k' = k + 1 /\ open' = open \ {Ev.id}
          /\ lin' = [o \in DOMAIN lin \ {Ev.id} |-> lin[o]] /\ UNCHANGED cells
     ELSE \E o \in open \ DOMAIN lin : Take(o) /\ UNCHANGED <<k, open>>
TSpec == TInit /\ [][TNext]_<<tvars, vars>>
View == tvars
Accepted == IF k > Len(E.ev) THEN PrintT(<<"ACCEPT", i>>) ELSE TRUE

(* lines that need no search *)
BulkOK(e) ==
  \A r \in 1..Len(e.got) :
    IF e.want[r] = <<>> THEN e.got[r] = <<>>
    ELSE Len(e.got[r]) = e.d /\ \A j \in 1..e.d : RClose(e.got[r][j], RMul(R(j), RSum(e.want[r])), RLit("1e-12"))
ASSUME \A j \in 1..Len(Trace) :
  LET e == Trace[j] IN
  IF e.outcome # "ok" THEN PrintT(<<"MISMATCH", j, e.key, <<"outcome " \o e.outcome>>>>)
  ELSE IF e.mode = "bulk" /\ ~BulkOK(e) THEN PrintT(<<"MISMATCH", j, e.key, <<"a contribution was lost, duplicated or altered">>>>)
  ELSE TRUE
=============================================================================
