------------------------------ MODULE MCPretty ------------------------------
(* Explores trees, node by node, and the pretty printing of all of them.    *)
EXTENDS UXPretty, TLC, Json
CONSTANTS MaxNodes, MaxDepth

Ind == <<32>>
Texts == {<<120>>, <<32>>, <<>>}
VARIABLES h, cur, i
Init == h = <<Elem(<<97>>, <<>>, 0)>> /\ cur = 1 /\ i = 0
RECURSIVE Depth(_, _)
Depth(t, j) == IF j = 0 THEN 0 ELSE 1 + Depth(t, t[j].p)
Grow ==
  /\ cur # 0 /\ Len(h) < MaxNodes
  /\ \/ /\ Depth(h, cur) < MaxDepth
        /\ h' = AddChild(Append(h, Elem(<<98>>, <<>>, cur)), cur, Len(h) + 1) /\ cur' = Len(h) + 1
     \/ \E t \in Texts : h' = AddChild(Append(h, Text(t, cur)), cur, Len(h) + 1) /\ cur' = cur
  /\ UNCHANGED i
Up == cur # 0 /\ cur' = h[cur].p /\ UNCHANGED <<h, i>>
Choose == /\ cur = 0 /\ i = 0
          /\ PrintT("SC " \o ToJson([h |-> h]))
          /\ i' \in {j \in 1..Len(h) : h[j].k = "E"} /\ UNCHANGED <<h, cur>>
Next == Grow \/ Up \/ Choose
Spec == Init /\ [][Next]_<<h, cur, i>>

G == Pretty(h, i, Ind, 1)
InvPretty == i # 0 => PrettyIssue(h, i, G, Ind, 1) = "ok"
\* what is pretty stays as it is
InvAgain == i # 0 => LET g == Clean(G)
                        ii == CHOOSE k \in 1..Len(G) : G[k].id = i
                    IN Clean(Pretty(g, ii, Ind, 1)) = g
\* the values lose white space only
NonWs(t) == SelectSeq(t, LAMBDA c : ~IsWS(c))
InvValue == i # 0 => NonWs(ValueOf(Clean(G), 1)) = NonWs(ValueOf(h, 1))
=============================================================================
