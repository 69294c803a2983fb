------------------------------ MODULE MCSelect ------------------------------
(* Explores trees, node by node, with selections from every node.           *)
EXTENDS UXSelect, TLC, Json
CONSTANTS MaxNodes, MaxDepth, MaxPat

NmA == <<97>>  NmB == <<97, 98>>
StepSet == { [k |-> "name", n |-> <<NmA>>], [k |-> "name", n |-> <<NmA, NmB>>], [k |-> "any", n |-> <<>>], [k |-> "deep", n |-> <<>>] }
Pats == {p \in UNION {[1..m -> StepSet] : m \in 1..MaxPat} : p[Len(p)].k # "deep" /\ \A m \in 1..(Len(p) - 1) : ~(p[m].k = "deep" /\ p[m+1].k = "deep")}
ReA == [cs |-> <<97>>, lo |-> 1, many |-> FALSE]  ReBs == [cs |-> <<98, 99>>, lo |-> 0, many |-> TRUE]  ReEnd == [cs |-> <<>>, lo |-> 0, many |-> FALSE]

Ops == {Op("desc"), Op("elems"), Op("foll")}
  \cup {[Op("name") EXCEPT !.n = n] : n \in {NmA, NmB}}
  \cup {[Op("re") EXCEPT !.re = r] : r \in {<<ReA>>, <<ReA, ReEnd>>, <<ReBs, ReA, ReBs, ReEnd>>, <<ReA, [ReA EXCEPT !.cs = <<98>>]>>}}
  \cup {[Op("value") EXCEPT !.t = t] : t \in {<<>>, <<120>>, <<120, 120>>}}
  \cup {[Op("attr") EXCEPT !.n = NmA], [Op("attrv") EXCEPT !.n = NmA, !.t = <<49>>], [Op("attrv") EXCEPT !.n = NmA, !.t = <<>>]}
  \cup {[Op("pat") EXCEPT !.pat = p] : p \in Pats}

VARIABLES h, cur, op
None == Op("none")
\* a tree is made of its nodes in document order
Init == h \in {<<Elem(NmA, <<>>, 0)>>, <<Elem(NmB, << <<NmA, <<>>>> >>, 0)>>} /\ cur = 1 /\ op = None
RECURSIVE Depth(_, _)
Depth(t, i) == IF i = 0 THEN 0 ELSE 1 + Depth(t, t[i].p)
Grow ==
  /\ op = None /\ cur # 0 /\ Len(h) < MaxNodes
  /\ \/ \E n \in {NmA, NmB} : \E a \in {<<>>, << <<NmA, <<49>>>> >>} :
          /\ Depth(h, cur) < MaxDepth
          /\ h' = AddChild(Append(h, Elem(n, a, cur)), cur, Len(h) + 1) /\ cur' = Len(h) + 1
     \/ h' = AddChild(Append(h, Text(<<120>>, cur)), cur, Len(h) + 1) /\ cur' = cur
  /\ UNCHANGED op
Up == op = None /\ cur # 0 /\ cur' = h[cur].p /\ UNCHANGED <<h, op>>
Choose == op = None /\ cur = 0 /\ \E o \in Ops : op' = o /\ UNCHANGED <<h, cur>> /\ PrintT("SC " \o ToJson([h |-> h, op |-> o]))
Next == Grow \/ Up \/ Choose
Spec == Init /\ [][Next]_<<h, cur, op>>

Sources == {i \in 1..Len(h) : op.o = "foll" => i # 1}
Res(i) == Selected(h, [el |-> i, seq |-> <<>>], <<op>>)
ESources == {i \in Sources : h[i].k = "E" \/ op.o = "foll"}
\* in document order, and so once each
InvOrder == op # None => \A i \in ESources : LET r == Res(i) IN \A m \in 1..(Len(r) - 1) : r[m] < r[m + 1]
InvWalk == op.o = "pat" => \A i \in ESources : Walk(h, i, op.pat, NInit(op.pat)) = Res(i)
\* descendants are what any path leads to
InvDesc == op.o = "desc" => \A i \in ESources : Res(i) = Walk(h, i, <<[k |-> "deep", n |-> <<>>], [k |-> "any", n |-> <<>>]>>, NInit(<<[k |-> "deep", n |-> <<>>], [k |-> "any", n |-> <<>>]>>))
\* from the children as a sequence it is the same
InvSeq == op.o \in {"elems", "name", "re", "value", "attr", "attrv"} => \A i \in ESources : Res(i) = Selected(h, [el |-> 0, seq |-> h[i].c], <<op>>)
InvFoll == op.o = "foll" => \A i \in ESources : \E m \in 0..Len(h[h[i].p].c) : SubSeq(h[h[i].p].c, 1, m) \o Res(i) = h[h[i].p].c /\ m > 0 /\ h[h[i].p].c[m] = i
=============================================================================
