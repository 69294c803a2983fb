------------------------------- MODULE MCHtml -------------------------------
(* Histories of the operations by which HTML parsing constructs a document. *)
(* Every (document, operation) pair is printed once, with a history which   *)
(* leads there.                                                             *)
EXTENDS UXHtml, TLC, Json
CONSTANTS MaxElems, MaxOthers, MaxOps

VARIABLES h, hist

XHTML == <<120>>
Attr(v) == [pre |-> <<>>, loc |-> <<105>>, v |-> <<v>>]
FAttr == [pre |-> <<108>>, loc |-> <<104>>, v |-> <<50>>]
Kind(k) == {j \in 1..Len(h) : h[j].k = k}
Els == Kind("E")
Names == {<<97>>, <<113, 58, 98>>}
Room == Cardinality(Els) < MaxElems
ORoom == Cardinality(Kind("T") \cup Kind("C")) < MaxOthers

Ops ==
     (IF Room THEN {[o |-> "elem", n |-> n, ns |-> XHTML] : n \in IF Els = {} THEN Names ELSE {<<97>>}} \cup {[o |-> "clone", e |-> e] : e \in Els} ELSE {})
\cup (IF ORoom /\ Els # {} THEN {[o |-> "comm", t |-> <<120>>]} ELSE {})
\cup {[o |-> "attrs", e |-> e, a |-> <<Attr(49), FAttr>>] : e \in {e \in Els : h[e].a = <<>>}}
\cup {[o |-> "put", e |-> e, a |-> Attr(51)] : e \in {e \in Els : h[e].a # <<>> /\ h[e].a[1] # Attr(51)}}
\cup {[o |-> "app", p |-> p, c |-> c] : p \in Els \cup {1}, c \in Els \cup Kind("C")}
\cup {[o |-> "bef", p |-> p, c |-> c, r |-> r] : p, c, r \in Els}
\cup (IF ORoom THEN {[o |-> "txt", p |-> p, t |-> <<121>>] : p \in Els} \cup {[o |-> "txb", p |-> p, t |-> <<122>>, r |-> r] : p, r \in Els} ELSE {})
\cup {[o |-> "rem", p |-> p, c |-> c] : p, c \in Els}
\cup {[o |-> "rep", p |-> p, q |-> q] : p, q \in Els}

Init == h = HInit /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ \E op \in Ops :
       /\ HLegal(h, op)
       /\ (op.o = "app" /\ op.p = 1) => h[1].c = <<>>
       /\ h' = HApply(h, op)
       /\ hist' = Append(hist, op)
       /\ PrintT("SC " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<h, hist>>
MCView == h

InvConsistent == HConsistent(h)
\* Moving children keeps all of the text, in order, and comments say nothing
InvText == \A j \in Els : LET evs == HEvents(h, j, <<>>) IN \A k \in 1..Len(evs) : evs[k].k \in {"S", "T", "E"} /\ (evs[k].k = "T" => evs[k].t # <<>>)
\* Every start has its end
InvNested == \A j \in Els : LET evs == HEvents(h, j, <<>>) IN
   Cardinality({k \in 1..Len(evs) : evs[k].k = "S"}) = Cardinality({k \in 1..Len(evs) : evs[k].k = "E"})
=============================================================================
