------------------------------ MODULE TrDetect ------------------------------
(* Judges answers of the detector (P19).  A case is a sequence of           *)
(* [b |-> bytes, out |-> "ok" or "err", r |-> the answer].                  *)
EXTENDS UXDetect, TLC, Json, IOUtils
CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

Verdict(c) ==
  LET bad == SelectSeq(c, LAMBDA x : x.out # "ok" \/ x.r # IsXml(x.b)) IN
  IF bad = <<>> THEN "ok"
  ELSE IF bad[1].out # "ok" THEN "failed"
  ELSE IF bad[1].r THEN "taken-for-XML" ELSE "not-taken-for-XML"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
