------------------------------ MODULE TrPretty ------------------------------
(* Judges pretty printing (P11).  A case is a sequence of steps, each       *)
(* [h |-> tree, i |-> element, depth, indent, out, ret |-> whether the same *)
(* element was returned, g |-> tree afterwards, with ids] with values.      *)
EXTENDS UXPretty, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

VStep(s) ==
  IF s.out # "ok" THEN s.out
  ELSE IF ~s.ret THEN "returned"
  ELSE IF ~(\E k \in 1..Len(s.g) : s.g[k].id = s.i) THEN "gone"
  ELSE LET r == PrettyIssue(s.h, s.i, s.g, s.indent, s.depth) IN
       IF r # "ok" THEN r
       ELSE IF \E k \in 1..Len(s.g) : s.g[k].v # ValueOf(s.g, k) THEN "value" ELSE "ok"

Verdict(c) ==
  LET bad == SelectSeq(c, LAMBDA s : VStep(s) # "ok") IN IF bad = <<>> THEN "ok" ELSE VStep(bad[1])

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i].steps))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
