------------------------------- MODULE UXHist -------------------------------
(* Histories of tree mutations and evaluations of MicroXPath (P15).         *)
(*                                                                          *)
(* State: h, a forest as in UXTree, and opens, a sequence of evaluations in *)
(* progress [id, c, e, vs, ep, at, h0, dead], h0 being the forest when they *)
(* began; dead if the tree of c has changed since then, from when on there  *)
(* is no claim about them.  An operation is one of UXTree, or               *)
(*   seta  p, a      sets attribute a of p (a <<name, value>> pair)         *)
(*   dela  p, n      deletes attribute n of p                               *)
(*   bad   t         parses an expression which is none                     *)
(*   eval  c, e, ep, at, vs        evaluates e from node c                  *)
(*   open  id, c, e, ep, at, vs    begins evaluation                        *)
(*   pull  id, n     takes n results         close  id   gives it up        *)
EXTENDS UXPath

RECURSIVE TopOf(_, _)
TopOf(h, i) == IF h[i].p = 0 THEN i ELSE TopOf(h, h[i].p)

\* value of an evaluation, with nodes of the forest
ResultOf(h, ev, alt) ==
  LET top == TopOf(h, ev.c)
      ids == SubtreeSeq(h, top)
      tree == Extract(h, top)
      me == CHOOSE k \in 1..Len(ids) : ids[k] = ev.c
      r == Ev(tree, ev.e, Start(tree, [ep |-> ev.ep, i |-> me, at |-> ev.at]), ev.vs, alt)
      Out(x) == CASE x.k \in {"N", "A"} -> [x EXCEPT !.i = ids[x.i]] [] x.k = "R" -> [x EXCEPT !.i = top] [] OTHER -> x
  IN [r EXCEPT !.s = [m \in 1..Len(r.s) |-> Out(r.s[m])]]

Mutates(op) == op.o \in {"new", "parse", "app", "ins", "apps", "inss", "rem", "seta", "dela"}
ApplyH(h, op) ==
  CASE op.o = "seta" -> [h |-> [h EXCEPT ![op.p].a = SetAttr(@, op.a[1], op.a[2])], err |-> FALSE]
    [] op.o = "dela" -> [h |-> [h EXCEPT ![op.p].a = SelectSeq(@, LAMBDA x : x[1] # op.n)], err |-> ~\E m \in 1..Len(h[op.p].a) : h[op.p].a[m][1] = op.n]
    [] OTHER -> Apply(h, op)
LegalH(h, op) == IF op.o \in {"seta", "dela"} THEN h[op.p].k = "E" ELSE Legal(h, op)

\* the tree of c is another one than before
Changed(h, h2, c) ==
  LET a == TopOf(h, c)  b == TopOf(h2, c) IN a # b \/ SubtreeSeq(h, a) # SubtreeSeq(h2, b) \/ \E k \in ToSet(SubtreeSeq(h, a)) : h[k] # h2[k]

Mark(h, h2, opens) == [m \in 1..Len(opens) |-> [opens[m] EXCEPT !.dead = @ \/ Changed(h, h2, opens[m].c)]]
Begin(h, op) == [id |-> op.id, c |-> op.c, e |-> op.e, vs |-> op.vs, ep |-> op.ep, at |-> op.at, h0 |-> h, dead |-> FALSE, got |-> <<>>]
=============================================================================
