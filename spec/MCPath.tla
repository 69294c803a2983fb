------------------------------- MODULE MCPath -------------------------------
(* Explores trees, node by node, with paths from every context.             *)
EXTENDS UXPath, TLC, Json
CONSTANTS MaxNodes, MaxDepth, Wide

A == <<97>>  Bn == <<98>>
VARIABLES h, cur, e
None == Expr("none")
Init == h \in {<<Elem(A, <<>>, 0)>>, <<Elem(Bn, << <<A, <<49>>>>, <<Bn, <<>>>> >>, 0)>>} /\ cur = 1 /\ e = None
RECURSIVE Depth(_, _)
Depth(t, i) == IF i = 0 THEN 0 ELSE 1 + Depth(t, t[i].p)
Grow ==
  /\ cur # 0 /\ Len(h) < MaxNodes
  /\ \/ \E w \in {Elem(A, <<>>, cur), Elem(Bn, << <<A, <<50>>>> >>, cur)} :
          /\ Depth(h, cur) < MaxDepth
          /\ h' = AddChild(Append(h, w), cur, Len(h) + 1) /\ cur' = Len(h) + 1
     \/ h' = AddChild(Append(h, Text(<<120>>, cur)), cur, Len(h) + 1) /\ cur' = cur
  /\ UNCHANGED e
UpT == cur # 0 /\ cur' = h[cur].p /\ UNCHANGED <<h, e>>

Tests(ax) == IF ax = "attribute" THEN {StepE(ax, "any", <<>>), StepE(ax, "name", A)}
             ELSE {StepE(ax, "name", A), StepE(ax, "any", <<>>), StepE(ax, "text", <<>>), StepE(ax, "node", <<>>)}
Steps == UNION {Tests(ax) : ax \in Axes} \cup {Expr("self"), Expr("par")}
Few == {StepE("child", "name", A), StepE("child", "any", <<>>), StepE("descendant", "node", <<>>), StepE("attribute", "any", <<>>),
        StepE("following", "node", <<>>), StepE("preceding-sibling", "node", <<>>), Expr("par"), StepE("ancestor-or-self", "node", <<>>)}
SomeFew == {StepE("child", "any", <<>>), StepE("attribute", "any", <<>>), StepE("preceding-sibling", "node", <<>>), Expr("par")}
Paths == Steps \cup {E1("abs", s) : s \in Steps} \cup {E1("absd", s) : s \in IF Wide THEN Steps ELSE Few} \cup {Expr("root")}
  \cup {E2("path", s, t) : s \in Few, t \in IF Wide THEN Steps ELSE Few} \cup {E2("dpath", s, t) : s \in Few, t \in IF Wide THEN Steps ELSE Few}
  \cup {E2("union", s, t) : s, t \in IF Wide THEN Few ELSE SomeFew} \cup {E1("abs", E2("dpath", s, t)) : s, t \in IF Wide THEN Few ELSE SomeFew} \cup {E1("absd", E2("path", s, t)) : s, t \in IF Wide THEN Few ELSE SomeFew}
Choose == cur = 0 /\ e = None /\ \E p \in Paths : e' = p /\ UNCHANGED <<h, cur>>
            /\ PrintT("SC " \o ToJson([h |-> h, e |-> p]))
Next == Grow \/ UpT \/ Choose
Spec == Init /\ [][Next]_<<h, cur, e>>

Contexts == {Rt} \cup {Nd(i) : i \in 1..Len(h)} \cup UNION {{At(h, i, m) : m \in 1..Len(h[i].a)} : i \in 1..Len(h)}
SetOf(r) == {r.s[m] : m \in 1..Len(r.s)}
Ax(x, a) == Axis(h, x, a)
TreeDone == cur = 0 /\ e = None
\* the axes of a node which is not an attribute share out the nodes of the tree
InvPartition == TreeDone =>
  \A x \in {Rt} \cup {Nd(i) : i \in 1..Len(h)} :
    LET p == <<SetOf(Ax(x, "self")), SetOf(Ax(x, "ancestor")), SetOf(Ax(x, "descendant")), SetOf(Ax(x, "following")), SetOf(Ax(x, "preceding"))>> IN
    /\ UNION ToSet(p) = {Rt} \cup {Nd(i) : i \in 1..Len(h)}
    /\ \A m, n \in 1..5 : m # n => p[m] \cap p[n] = {}
InvInverse == TreeDone =>
  \A x, y \in Contexts :
    /\ (y \in SetOf(Ax(x, "child")) \cup SetOf(Ax(x, "attribute"))) <=> (x \in SetOf(Ax(y, "parent")))
    /\ y.k # "A" => ((y \in SetOf(Ax(x, "descendant"))) <=> (x \in SetOf(Ax(y, "ancestor"))))
    /\ x.k # "A" /\ y.k # "A" => ((y \in SetOf(Ax(x, "following"))) <=> (x \in SetOf(Ax(y, "preceding"))))
    /\ (y \in SetOf(Ax(x, "following-sibling"))) <=> (x \in SetOf(Ax(y, "preceding-sibling")))
    /\ (y \in SetOf(Ax(x, "following-sibling"))) => x.k = "N" /\ y \in SetOf(Ax(x, "following"))
\* forward axes are in document order, reverse ones in the reverse of it, and none has anything twice
InvOrder == TreeDone =>
  \A x \in Contexts : \A a \in Axes :
    LET s == Ax(x, a).s IN
    \A m \in 1..(Len(s) - 1) :
      IF a \in {"ancestor", "ancestor-or-self", "preceding", "preceding-sibling"} THEN OrdKey(h, s[m]) > OrdKey(h, s[m + 1])
      ELSE OrdKey(h, s[m]) < OrdKey(h, s[m + 1])
Val(p, x, alt) == Ev(h, p, x, <<>>, alt)
\* the two ways of going through // select the same
InvAlt == e # None => \A x \in Contexts : LET r == Val(e, x, TRUE)  r2 == Val(e, x, FALSE) IN
  /\ r.u = r2.u /\ Len(r.s) = Len(r2.s)
  /\ \A y \in SetOf(r) \cup SetOf(r2) : Cardinality({m \in 1..Len(r.s) : r.s[m] = y}) = Cardinality({m \in 1..Len(r2.s) : r2.s[m] = y})
\* absolute paths do not depend on the context
InvAbs == e.o \in {"abs", "absd", "root"} => \A x \in Contexts : Val(e, x, FALSE).s = Val(e, Rt, FALSE).s
InvUnion == e.o = "union" => \A x \in Contexts : LET r == Val(e, x, FALSE)  a == Val(e.a[1], x, FALSE)  b == Val(e.a[2], x, FALSE) IN
  ~r.u => SetOf(r) = SetOf(a) \cup SetOf(b) /\ \A m \in 1..(Len(r.s) - 1) : OrdKey(h, r.s[m]) < OrdKey(h, r.s[m + 1])
=============================================================================
