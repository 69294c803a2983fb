------------------------------ MODULE TrSyntax ------------------------------
(* Judges expressions given as texts (P20).  A case is [h |-> tree, vs |->  *)
(* variables, xs |-> sequence of [x |-> text, p |-> outcome of parsing it,   *)
(* evs |-> evaluations [ep, i, at, out, got]], after |-> tree afterwards].   *)
EXTENDS UXSyntax, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

VText(c, x) ==
  LET r == Parse(Lex(x.x)) IN
  IF x.p = "hang" THEN "hang"
  ELSE IF ~r.ok THEN IF r.u THEN "unclear" ELSE IF x.p # "err" THEN "accepted" ELSE "ok"
  ELSE IF r.u THEN "unclear"
  ELSE IF x.p # "ok" THEN "rejected"
  ELSE LET V(ev) == LET s == Start(c.h, ev) IN Agrees(Ev(c.h, r.e, s, c.vs, TRUE), Ev(c.h, r.e, s, c.vs, FALSE), ev.out, ev.got, TRUE)
           vds == [k \in 1..Len(x.evs) |-> V(x.evs[k])]
           bad == {k \in 1..Len(vds) : vds[k] \notin {"ok", "unclear"}}
       IN IF bad # {} THEN vds[CHOOSE k \in bad : \A j \in bad : k <= j] ELSE IF \E k \in 1..Len(vds) : vds[k] = "ok" THEN "ok" ELSE "unclear"

Verdict(c) ==
  LET vds == [k \in 1..Len(c.xs) |-> VText(c, c.xs[k])]
      bad == {k \in 1..Len(vds) : vds[k] \notin {"ok", "unclear"}}
  IN IF c.after # c.h THEN "changed"
     ELSE IF bad # {} THEN LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN vds[k] \o "#" \o ToString(k)
     ELSE IF 2 * Cardinality({k \in 1..Len(vds) : vds[k] = "unclear"}) > Len(vds) THEN "ok:unclear" ELSE "ok"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
