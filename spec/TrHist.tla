------------------------------- MODULE TrHist -------------------------------
(* Judges histories of mutations and evaluations (P15).  A case is [ops,    *)
(* obs, alive]: obs[k] is [out, got, end, vars, nodes]: outcome, results    *)
(* taken, whether there are no more, whether the variables are as they      *)
(* were, and the forest after it; alive is the number of nodes which        *)
(* remain when everything has been let go of.                               *)
EXTENDS UXHist, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

Forest(h) == [j \in 1..Len(h) |-> [k |-> h[j].k, n |-> h[j].n, a |-> h[j].a, t |-> h[j].t, p |-> h[j].p, c |-> h[j].c]]

Both(h, ev, ob, got, complete) == Agrees(ResultOf(h, ev, TRUE), ResultOf(h, ev, FALSE), ob.out, got, complete)
Fine(v) == v \in {"ok", "unclear"}

StepCase(s, op, ob) ==
  IF s.v # "ok" THEN s
  ELSE IF ob.vars # TRUE THEN [s EXCEPT !.v = "variables"]
  ELSE
    LET mut == Mutates(op)
        r == IF mut THEN ApplyH(s.h, op) ELSE [h |-> s.h, err |-> FALSE]
        v == IF ob.out = "hang" THEN "hang"
             ELSE CASE mut -> IF (ob.out = "err") # r.err THEN "mutation" ELSE "ok"
                    [] op.o = "bad" -> IF ob.out # "err" THEN "no-error" ELSE "ok"
                    [] op.o = "eval" -> Both(s.h, op, ob, ob.got, TRUE)
                    [] op.o = "pull" ->
                         LET w == SelectSeq(s.opens, LAMBDA x : x.id = op.id) IN
                         IF w = <<>> \/ w[1].dead THEN "ok" ELSE Both(s.h, w[1], ob, w[1].got \o ob.got, ob.end)
                    [] OTHER -> "ok"
        opens1 == CASE mut -> Mark(s.h, r.h, s.opens)
                    [] op.o = "open" -> Append(s.opens, Begin(s.h, op))
                    [] op.o = "pull" -> [m \in 1..Len(s.opens) |-> IF s.opens[m].id = op.id THEN [s.opens[m] EXCEPT !.got = @ \o ob.got, !.dead = @ \/ ob.out # "ok"] ELSE s.opens[m]]
                    [] op.o = "close" -> SelectSeq(s.opens, LAMBDA x : x.id # op.id)
                    [] OTHER -> s.opens
    IN [h |-> r.h, opens |-> opens1,
        v |-> IF ~Fine(v) THEN op.o \o "-" \o v ELSE IF ob.nodes # Forest(r.h) THEN op.o \o "-tree" ELSE "ok"]

Verdict(c) ==
  LET f == FoldLeft(LAMBDA s, k : StepCase(s, c.ops[k], c.obs[k]), [h |-> <<>>, opens |-> <<>>, v |-> "ok"], [k \in 1..Len(c.ops) |-> k])
  IN IF f.v # "ok" THEN f.v ELSE IF c.alive # 0 THEN "not-freed" ELSE "ok"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
