------------------------------ MODULE TrSelect ------------------------------
(* Judges selections made (P10).  A case is [h |-> tree, sel |-> sequence   *)
(* of [src, ops, out, got |-> nodes selected], after |-> tree afterwards].  *)
EXTENDS UXSelect, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

VSel(h, s) ==
  IF s.out # "ok" THEN s.out
  ELSE LET want == Selected(h, s.src, s.ops) IN
       IF s.got = want THEN "ok"
       ELSE IF Len(s.got) > Len(want) THEN "too-many" ELSE IF Len(s.got) < Len(want) THEN "missing" ELSE "different"

Verdict(c) ==
  LET h == [k \in 1..Len(c.h) |-> c.h[k]]
      bad == SelectSeq(c.sel, LAMBDA s : VSel(h, s) # "ok")
  IN IF c.h # c.after THEN "changed"
     ELSE IF bad = <<>> THEN "ok" ELSE VSel(h, bad[1]) \o ":" \o Last(bad[1].ops).o

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
