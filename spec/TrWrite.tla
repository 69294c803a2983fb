------------------------------- MODULE TrWrite ------------------------------
(* Judges recorded output of encoding (P05) and of writers (P06).           *)
(*                                                                          *)
(* P05 case: [h |-> tree (UXTree), after |-> the tree afterwards, i |->     *)
(* node encoded, outs |-> <<[how, out, pad |-> whether  *)
(* there is indentation, x |-> text], ..>>, re |-> <<[how,    *)
(* out, h |-> tree read back], ..>>].                                       *)
(* P06 case: [calls (<<>> if a tree was written), h |-> the tree, cfg |->   *)
(* configuration as in UXWrite with pad |-> whether there is indentation,   *)
(* out, x |-> text, re |-> as above].                                       *)
EXTENDS UXWrite, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
PROP == IOEnv.PROP
VARIABLES i, done

Strip(h) == [j \in 1..Len(h) |-> [k |-> h[j].k, n |-> h[j].n, a |-> h[j].a, t |-> h[j].t, p |-> h[j].p, c |-> h[j].c]]

FirstBad(vs) == LET b == SelectSeq(vs, LAMBDA v : v # "ok") IN IF b = <<>> THEN "ok" ELSE b[1]

VOut(evs, o) ==
  IF o.out # "ok" THEN o.out \o ":" \o o.how
  ELSE LET st == RunX(o.x) IN
       IF Outcome(st) # "ok" \/ st.tags # {} THEN "not-well-formed:" \o o.how
       ELSE IF o.pad THEN IF SameButPadding(evs, st.evs) THEN "ok" ELSE "differs-with-indent:" \o o.how
       ELSE IF st.evs # evs THEN "differs:" \o o.how ELSE "ok"

VRe(evs, r) ==
  IF r.out # "ok" THEN "not-read-back:" \o r.how
  ELSE IF TreeEvents(r.h, 1) # evs THEN "read-back-differs:" \o r.how ELSE "ok"

V05(c) ==
  LET evs == TreeEvents(c.h, c.i) IN
  IF c.after # c.h THEN "tree-changed"
  ELSE FirstBad([k \in 1..Len(c.outs) |-> VOut(evs, c.outs[k])] \o [k \in 1..Len(c.re) |-> VRe(evs, c.re[k])])

V06(c) ==
  LET calls == IF c.calls = <<>> THEN TreeCalls(c.h, 1) ELSE c.calls
      evs == CallEvents(c.cfg, calls)
  IN IF ~Proper(calls) THEN "bad-case"
     ELSE IF c.out # "ok" THEN c.out
     ELSE LET st == RunX(c.x) IN
          IF Outcome(st) # "ok" \/ st.tags # {} THEN "not-well-formed"
          ELSE IF c.cfg.pad THEN IF SameButPadding(evs, st.evs) THEN "ok" ELSE "differs-with-indent"
          ELSE IF c.cfg.ns # <<>> THEN IF SameUpToAttrOrder(evs, st.evs) THEN "ok" ELSE "differs-with-namespaces"
          ELSE IF st.evs # evs THEN "differs"
          ELSE FirstBad([k \in 1..Len(c.re) |-> VRe(evs, c.re[k])])

Verdict(c) == IF PROP = "P05" THEN V05(c) ELSE V06(c)

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
