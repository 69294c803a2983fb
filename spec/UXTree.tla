------------------------------- MODULE UXTree -------------------------------
(* MicroXML trees.                                                          *)
(*                                                                          *)
(* A tree (or forest) is a sequence of nodes; a node is known by its index. *)
(* In a tree made by TreeOf, indices are in document order and the root is  *)
(* node 1.  A node is a record                                              *)
(*   k  "E" element, "T" text                                               *)
(*   n  name (elements)     a  attributes, <<name, value>> pairs            *)
(*   t  text (text nodes)   p  parent, 0 if none    c  children             *)
EXTENDS UXParser

Elem(n, a, p) == [k |-> "E", n |-> n, a |-> a, t |-> <<>>, p |-> p, c |-> <<>>]
Text(t, p) == [k |-> "T", n |-> <<>>, a |-> <<>>, t |-> t, p |-> p, c |-> <<>>]

AddChild(h, p, i) == IF p = 0 THEN h ELSE [h EXCEPT ![p].c = Append(@, i)]

(* One event of a tree builder: s is [h |-> nodes, cur |-> open element or 0, root |-> root or 0] *)
BuildStep(s, e) ==
  CASE e.k = "S" ->
         LET i == Len(s.h) + 1 IN
         [h |-> AddChild(Append(s.h, Elem(e.n, e.a, s.cur)), s.cur, i), cur |-> i, root |-> IF s.root = 0 THEN i ELSE s.root]
    [] e.k = "T" ->
         LET i == Len(s.h) + 1 IN
         [s EXCEPT !.h = AddChild(Append(s.h, Text(e.t, s.cur)), s.cur, i)]
    [] OTHER -> [s EXCEPT !.cur = s.h[s.cur].p]

TreeOf(evs) == FoldLeft(BuildStep, [h |-> <<>>, cur |-> 0, root |-> 0], evs).h

(* Nodes of the subtree at i in document order *)
RECURSIVE SubtreeSeq(_, _)
SubtreeSeq(h, i) ==
  FoldLeft(LAMBDA s, j : s \o SubtreeSeq(h, j), <<i>>, h[i].c)

(* The subtree at i as a tree of its own *)
Extract(h, i) ==
  LET ids == SubtreeSeq(h, i)
      New(j) == CHOOSE k \in 1..Len(ids) : ids[k] = j
  IN [k \in 1..Len(ids) |->
        LET nd == h[ids[k]] IN
        [nd EXCEPT !.p = IF k = 1 THEN 0 ELSE New(nd.p), !.c = [m \in 1..Len(nd.c) |-> New(nd.c[m])]]]

RECURSIVE ValueOf(_, _)
ValueOf(h, i) ==
  IF h[i].k = "T" THEN h[i].t
  ELSE FoldLeft(LAMBDA s, j : s \o ValueOf(h, j), <<>>, h[i].c)

(* Events which a tree amounts to: adjacent text is one text, empty text is none *)
AddText(evs, t) ==
  IF t = <<>> THEN evs
  ELSE IF evs # <<>> /\ Last(evs).k = "T" THEN Append(Front(evs), EvT(Last(evs).t \o t))
  ELSE Append(evs, EvT(t))

RECURSIVE EventsOf(_, _, _, _)
EventsOf(h, i, stack, evs) ==
  IF h[i].k = "T" THEN AddText(evs, h[i].t)
  ELSE Append(FoldLeft(LAMBDA e, j : EventsOf(h, j, Append(stack, h[i].n), e),
                       Append(evs, EvS(h[i].n, h[i].a, stack)), h[i].c),
              EvE(h[i].n, stack))
TreeEvents(h, i) == EventsOf(h, i, <<>>, <<>>)

(* Links are consistent: children and parents agree, no node occurs twice, and there are no cycles *)
Consistent(h) ==
  /\ \A i \in 1..Len(h) :
       /\ h[i].p \in 0..Len(h)
       /\ h[i].k = "T" => h[i].c = <<>>
       /\ \A m \in 1..Len(h[i].c) : h[i].c[m] \in 1..Len(h) /\ h[h[i].c[m]].p = i
       /\ \A m, n \in 1..Len(h[i].c) : m # n => h[i].c[m] # h[i].c[n]
       /\ h[i].p # 0 => \E m \in 1..Len(h[h[i].p].c) : h[h[i].p].c[m] = i
  /\ \A i \in 1..Len(h) :   \* going up ends
       FoldLeft(LAMBDA j, k : IF j = 0 THEN 0 ELSE h[j].p, i, [k \in 1..Len(h) |-> k]) = 0

-----------------------------------------------------------------------------
(* Recorded trees: nodes have a field v, their value, as well *)
WithValues(h) ==
  [j \in 1..Len(h) |-> [k |-> h[j].k, n |-> h[j].n, a |-> h[j].a, t |-> h[j].t, p |-> h[j].p, c |-> h[j].c, v |-> ValueOf(h, j)]]

(* Text may come in several nodes when the source is XML *)
SameTree(want, got, exact) ==
  IF exact THEN got = WithValues(want)
  ELSE LET g == [j \in 1..Len(got) |-> [k |-> got[j].k, n |-> got[j].n, a |-> got[j].a, t |-> got[j].t, p |-> got[j].p, c |-> got[j].c]]
       IN /\ \A j \in 1..Len(g) : \A m \in 1..Len(g[j].c) : g[j].c[m] \in 1..Len(g)
          /\ Consistent(g)
          /\ got = WithValues(g)
          /\ TreeEvents(g, 1) = TreeEvents(want, 1)

-----------------------------------------------------------------------------
(* Mutations.  h is a forest.  An operation is a record with field o:       *)
(*   new    n, a     makes an element          parse  x   reads a document  *)
(*   app    p, c     appends element c to p    apps   p, t  appends a string *)
(*   ins    p, i, c  inserts element c at i    inss   p, i, t                *)
(*   rem    p, c     removes child c of p                                   *)
(*   seta   c, n, t  sets attribute n of c  dela   c, n  deletes it, if any  *)
(* (i counts from 0; i past the end appends, and so does -1).               *)

InsAt(s, i, x) ==
  IF i < 0 \/ i >= Len(s) THEN Append(s, x)
  ELSE SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

IsChild(h, p, c) == \E m \in 1..Len(h[p].c) : h[p].c[m] = c

RECURSIVE Ancestors(_, _)
Ancestors(h, i) == IF h[i].p = 0 THEN {} ELSE {h[i].p} \cup Ancestors(h, h[i].p)

Shift(h, n) == [i \in 1..Len(h) |->
  [h[i] EXCEPT !.p = IF @ = 0 THEN 0 ELSE @ + n, !.c = [m \in 1..Len(h[i].c) |-> h[i].c[m] + n]]]

(* Whether an operation is in the domain about which there is a claim *)
Legal(h, op) ==
  CASE op.o \in {"new", "parse"} -> TRUE
    [] op.o \in {"app", "ins"} ->
         /\ h[op.p].k = "E" /\ h[op.c].k = "E" /\ h[op.c].p = 0
         /\ op.p # op.c /\ op.c \notin Ancestors(h, op.p)
    [] op.o \in {"apps", "inss"} -> h[op.p].k = "E"
    [] op.o = "rem" -> h[op.p].k = "E"
    [] op.o \in {"seta", "dela"} -> h[op.c].k = "E"

SetAttr(as, n, t) ==
  IF \E j \in 1..Len(as) : as[j][1] = n
  THEN [j \in 1..Len(as) |-> IF as[j][1] = n THEN <<n, t>> ELSE as[j]]
  ELSE Append(as, <<n, t>>)

(* Result: [h |-> forest, err |-> whether it fails] *)
Apply(h, op) ==
  LET n == Len(h) + 1 IN
  CASE op.o = "new" -> [h |-> Append(h, Elem(op.n, op.a, 0)), err |-> FALSE]
    [] op.o = "parse" -> LET st == Run(op.x) IN
         IF Outcome(st) = "ok" THEN [h |-> h \o Shift(TreeOf(st.evs), Len(h)), err |-> FALSE] ELSE [h |-> h, err |-> TRUE]
    [] op.o = "app" -> [h |-> [h EXCEPT ![op.p].c = Append(@, op.c), ![op.c].p = op.p], err |-> FALSE]
    [] op.o = "ins" -> [h |-> [h EXCEPT ![op.p].c = InsAt(@, op.i, op.c), ![op.c].p = op.p], err |-> FALSE]
    [] op.o = "apps" -> [h |-> [Append(h, Text(op.t, op.p)) EXCEPT ![op.p].c = Append(@, n)], err |-> FALSE]
    [] op.o = "inss" -> [h |-> [Append(h, Text(op.t, op.p)) EXCEPT ![op.p].c = InsAt(@, op.i, n)], err |-> FALSE]
    [] op.o = "rem" ->
         IF IsChild(h, op.p, op.c)
         THEN [h |-> [h EXCEPT ![op.p].c = SelectSeq(@, LAMBDA j : j # op.c), ![op.c].p = 0], err |-> FALSE]
         ELSE [h |-> h, err |-> TRUE]
    [] op.o = "seta" -> [h |-> [h EXCEPT ![op.c].a = SetAttr(@, op.n, op.t)], err |-> FALSE]
    [] op.o = "dela" -> [h |-> [h EXCEPT ![op.c].a = SelectSeq(@, LAMBDA x : x[1] # op.n)], err |-> FALSE]

-----------------------------------------------------------------------------
(* Life: held is the set of nodes held from outside.  Operations keep the   *)
(* nodes which they make held (parse: the root), and                        *)
(*   drop  c   lets go of c        hold  c   takes hold of c                *)
RECURSIVE Closure(_, _)
Closure(h, s) ==
  LET s2 == s \cup UNION {ToSet(h[i].c) : i \in s} IN IF s2 = s THEN s ELSE Closure(h, s2)
Alive(h, held) == Closure(h, held)
(* Nodes which have gone are no longer anything's parent or child. *)
Bury(h, alive) ==
  [i \in 1..Len(h) |->
     IF i \in alive THEN [h[i] EXCEPT !.p = IF @ \in alive THEN @ ELSE 0]
     ELSE [h[i] EXCEPT !.p = 0, !.c = <<>>]]
=============================================================================
