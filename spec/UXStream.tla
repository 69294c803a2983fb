------------------------------ MODULE UXStream ------------------------------
(* Lives of subtrees which a sender delivers.                               *)
(*                                                                          *)
(* The sink may hold some nodes of a subtree when it is delivered, and let  *)
(* go of them later.  The sender itself may hold on to the subtree which it *)
(* delivered last to each sink (its slack), and to nothing else; when it    *)
(* has gone, it holds nothing.                                              *)
(* State: for each delivery [s |-> sink, h |-> its nodes, held |-> set]     *)
EXTENDS UXPattern

Arrive(ds, s, tree, hold) == Append(ds, [s |-> s, h |-> tree, held |-> hold])
LetGo(ds, j) == [ds EXCEPT ![j].held = {}]

MustLive(d) == Alive(d.h, d.held)
Slack(ds, j) == \A m \in (j + 1)..Len(ds) : ds[m].s # ds[j].s
(* Elements of which none may be left: text nodes keep nothing else alive, and may go later *)
MustBeGone(ds, j) ==
  IF Slack(ds, j) THEN {} ELSE {i \in 1..Len(ds[j].h) : ds[j].h[i].k = "E"} \ MustLive(ds[j])
=============================================================================
