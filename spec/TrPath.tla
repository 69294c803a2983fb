------------------------------- MODULE TrPath -------------------------------
(* Judges evaluations of MicroXPath (P12 to P14).  A case is [h |-> tree,   *)
(* vs |-> variables, evs |-> sequence of [ep, i, at, e, out, got |-> items],  *)
(* after |-> tree afterwards].  ep is the way in: with the element or text   *)
(* node i as the item (xml_xpath, qquery), with a document (string, bytes),  *)
(* a context (forced to the root, or plain), or for attribute at of i (attr) *)
EXTENDS UXPath, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

VEv(h, vs, ev) ==
  LET x == Start(h, ev)
      r == Ev(h, ev.e, x, vs, TRUE)
      r2 == Ev(h, ev.e, x, vs, FALSE)
  IN Agrees(r, r2, ev.out, ev.got, TRUE)

Verdict(c) ==
  LET vds == [k \in 1..Len(c.evs) |-> VEv(c.h, c.vs, c.evs[k])]
      bad == {k \in 1..Len(vds) : vds[k] \notin {"ok", "unclear"}}
  IN IF c.after # c.h THEN "changed"
     ELSE IF bad # {} THEN LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN vds[k] \o ":" \o c.evs[k].ep \o ":" \o c.evs[k].e.o \o "#" \o ToString(k)
     ELSE IF 2 * Cardinality({k \in 1..Len(vds) : vds[k] = "unclear"}) > Len(vds) THEN "ok:unclear" ELSE "ok"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
