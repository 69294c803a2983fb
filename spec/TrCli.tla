-------------------------------- MODULE TrCli --------------------------------
(* Judges invocations of the command line tool (P17).  A case is an         *)
(* invocation as in UXCli with limit |-> number of results asked for (0: no *)
(* limit), ok |-> whether all sources can be read, code |-> exit status,    *)
(* out |-> what was printed.                                                *)
EXTENDS UXCli, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

VFind(c) ==
  LET us == AllUnits(c)
      All(every) == FoldLeft(LAMBDA s, h : s \o Found(c, h, every), <<>>, us)
  IN IF c.code # 0 THEN "failed" ELSE IF c.out \in {Lines(All(TRUE)), Lines(All(FALSE))} THEN "ok" ELSE "find-differs"

VEval(c) ==
  LET us == AllUnits(c)
      rs == [m \in 1..Len(us) |-> Result(c, us[m], TRUE)]
      rs2 == [m \in 1..Len(us) |-> Result(c, us[m], FALSE)]
      items == FoldLeft(LAMBDA s, m : s \o Items(us[m], rs[m]), <<>>, [m \in 1..Len(us) |-> m])
      lim == SubSeq(items, 1, IF c.limit < Len(items) THEN c.limit ELSE Len(items))
  IN IF \E m \in 1..Len(us) : rs[m].u \/ rs2[m].u \/ rs[m].s # rs2[m].s THEN "ok:unclear"
     ELSE IF \E m \in 1..Len(us) : Bad(rs[m]) THEN IF c.code = 0 THEN "no-error" ELSE "ok"
     ELSE IF \E m \in 1..Len(us) : rs[m].e THEN "ok"
     ELSE IF c.code # 0 THEN "failed"
     ELSE IF Len(items) > 300 THEN "ok:long"
     ELSE IF c.limit > 0 /\ Printed(lim, c.out) THEN "ok"
     ELSE IF Printed(items, c.out) THEN IF c.limit > 0 THEN "known:limit" ELSE "ok"
     ELSE c.cmd \o "-differs"

Verdict(c) ==
  IF c.code = 1000 THEN "hang"
  ELSE IF ~c.ok THEN IF c.code = 0 THEN "no-error" ELSE "ok"
  ELSE IF c.cmd = "find" THEN VFind(c) ELSE VEval(c)

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
