------------------------------ MODULE TrReduce ------------------------------
(* Judges what became of XML documents (P09).  A case is a succession of    *)
(* documents, each [items (UXReduce), ep |-> entry point, out, evs |->      *)
(* events, now |-> tree, end |-> the tree when all was over, pat |->        *)
(* pattern, log |-> trees delivered]; what does not apply is empty.         *)
(* Entry points:                                                            *)
(*   tb    tree builder           ev    events to a handler                 *)
(*   file  pattern-driven parse of a file    feed  of pieces of input       *)
(* ev and feed do not know where the input ends, and so cannot tell that it *)
(* is truncated.                                                            *)
EXTENDS UXReduce, UXPattern, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

Merge(evs) == FoldLeft(LAMBDA s, e : IF e.k = "T" THEN AddText(s, e.t) ELSE Append(s, e), <<>>, evs)

VDoc(d) ==
  LET r == Read(d.items)
      whole == r.ok /\ r.phase = 2
      ends == d.ep \in {"tb", "file"}
  IN IF d.out = "hang" THEN "hang"
     ELSE IF ~r.ok \/ (ends /\ ~whole) THEN IF d.out = "err" THEN "ok" ELSE IF r.ok THEN "accepted-truncated" ELSE "accepted-malformed"
     ELSE IF d.out # "ok" THEN "rejected"
     ELSE CASE d.ep = "tb" ->
                 IF ~SameTree(TreeOf(r.evs), d.now, FALSE) THEN "tree"
                 ELSE IF d.end # d.now THEN "tree-later" ELSE "ok"
            [] d.ep = "ev" ->
                 \* what comes last may not be complete yet if the input is not
                 IF whole THEN IF Merge(d.evs) = r.evs THEN "ok" ELSE "events"
                 ELSE LET n == Len(SelectSeq(r.evs, LAMBDA e : e.k # "T")) IN
                      IF SelectSeq(d.evs, LAMBDA e : e.k # "T") = SelectSeq(r.evs, LAMBDA e : e.k # "T") THEN "ok" ELSE "events"
            [] OTHER ->
                 LET ds == Deliveries(r.evs, d.pat) IN
                 IF Len(ds) # Len(d.log) THEN "deliveries"
                 ELSE IF \E k \in 1..Len(ds) : ~SameTree(Delivered(r.evs, ds[k]), d.log[k], FALSE) THEN "delivered-tree" ELSE "ok"

Verdict(c) ==
  LET bad == SelectSeq(c, LAMBDA d : VDoc(d) # "ok") IN
  IF bad = <<>> THEN "ok" ELSE VDoc(bad[1]) \o ":" \o bad[1].ep

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
