------------------------------- MODULE TrBuild ------------------------------
(* Judges trees built from a succession of documents (P04).  A case is a    *)
(* sequence of parses [x |-> document, ep |-> by which entry point, out |-> *)
(* "ok", "err", "hang" or "none" (no tree), now |-> tree just after the     *)
(* parse, end |-> the same tree after all of the parses].  Nodes as in      *)
(* UXTree, with v their values.                                             *)
EXTENDS UXTree, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

Differ(h, g) ==  \* in what the tree g differs from h
  IF Len(h) # Len(g) THEN "nodes"
  ELSE LET bad == {j \in 1..Len(h) : g[j] # h[j]} IN
       IF bad = {} THEN "ok"
       ELSE LET j == CHOOSE j \in bad : \A m \in bad : j <= m IN
            IF g[j].p # h[j].p THEN "parent"
            ELSE IF g[j].c # h[j].c THEN "children"
            ELSE IF g[j].k # h[j].k \/ g[j].n # h[j].n \/ g[j].a # h[j].a \/ g[j].t # h[j].t THEN "content"
            ELSE "value"

VParse(r) ==
  LET st == Run(r.x)
      o == Outcome(st)
  IN IF r.out = "hang" THEN "hang"
     ELSE IF o = "any" \/ st.tags # {} THEN "ok"
     ELSE IF o = "err" THEN IF r.out = "err" THEN "ok" ELSE "accepted"
     ELSE IF o = "none" THEN IF r.out = "ok" THEN "tree-of-nothing" ELSE "ok"
     ELSE IF r.out # "ok" THEN "rejected"
     ELSE LET h == WithValues(TreeOf(st.evs)) IN
          IF Differ(h, r.now) # "ok" THEN Differ(h, r.now)
          ELSE IF Differ(h, r.end) # "ok" THEN "later-" \o Differ(h, r.end)
          ELSE "ok"

Verdict(c) ==
  LET bad == SelectSeq(c, LAMBDA r : VParse(r) # "ok") IN
  IF bad = <<>> THEN "ok" ELSE VParse(bad[1]) \o ":" \o bad[1].ep

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
