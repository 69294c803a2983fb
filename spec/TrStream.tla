------------------------------ MODULE TrStream ------------------------------
(* Judges the lives of delivered subtrees (P18).  A case is                 *)
(*   [x |-> document, exact |-> whether text nodes are as in x, pats,       *)
(*    log |-> what happened, one after the other:                           *)
(*      [a |-> "came", s |-> sink, now |-> tree, hold |-> nodes held,       *)
(*       al |-> for each delivery so far, for each node, whether it is      *)
(*       there] (al includes the one which came)                            *)
(*      [a |-> "drop", j |-> delivery of which the nodes are let go of]     *)
(*    end |-> when the sender has gone: for each delivery, for each node    *)
(*       [al, p, c, v]: p and c numbers of nodes, -1 if there is none]      *)
EXTENDS UXStream, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

Nodes(now) == [j \in 1..Len(now) |-> [k |-> now[j].k, n |-> now[j].n, a |-> now[j].a, t |-> now[j].t, p |-> now[j].p, c |-> now[j].c]]

VSeen(ds, al) ==
  IF \E j \in 1..Len(ds) : \E k \in MustLive(ds[j]) : ~al[j][k] THEN "freed"
  ELSE IF \E j \in 1..Len(ds) : \E k \in MustBeGone(ds, j) : al[j][k] THEN "not-freed"
  ELSE "ok"

LStep(s, e) ==
  IF s.v # "ok" THEN s
  ELSE IF e.a = "drop" THEN [s EXCEPT !.ds = LetGo(@, e.j)]
  ELSE LET ds == Arrive(s.ds, e.s, Nodes(e.now), ToSet(e.hold)) IN [ds |-> ds, v |-> VSeen(ds, e.al)]

VEnd(d, ns) ==
  LET live == MustLive(d)
      h == Bury(d.h, live)
  IN IF \E k \in live : ~ns[k].al THEN "freed-at-end"
     ELSE IF \E k \in 1..Len(ns) : k \notin live /\ ns[k].al THEN "not-freed-at-end"
     ELSE IF \E k \in live : ns[k].p # h[k].p THEN "parent-at-end"
     ELSE IF \E k \in live : ns[k].c # h[k].c THEN "children-at-end"
     ELSE IF \E k \in live : ns[k].v # ValueOf(h, k) THEN "value-at-end"
     ELSE "ok"

Verdict(c) ==
  LET st == Run(c.x) IN
  IF Outcome(st) # "ok" \/ st.tags # {} THEN "ok"
  ELSE IF c.out # "ok" THEN c.out
  ELSE LET came == SelectSeq(c.log, LAMBDA e : e.a = "came")
           wrong == {s \in 1..Len(c.pats) :
             LET got == SelectSeq(came, LAMBDA e : e.s = s)
                 want == Deliveries(st.evs, c.pats[s])
             IN Len(got) # Len(want) \/ \E m \in 1..Len(want) : ~SameTree(Delivered(st.evs, want[m]), got[m].now, c.exact)}
       IN IF wrong # {} THEN "deliveries"
          ELSE LET r == FoldLeft(LStep, [ds |-> <<>>, v |-> "ok"], c.log)
                   vs == [j \in 1..Len(r.ds) |-> VEnd(r.ds[j], c.end[j])]
                   bad == SelectSeq(vs, LAMBDA v : v # "ok")
               IN IF r.v # "ok" THEN r.v ELSE IF bad # <<>> THEN bad[1] ELSE "ok"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
