------------------------------ MODULE UXSelect ------------------------------
(* Selection utilities.  h is a tree (root 1, indices in document order).   *)
(* A selection starts from a node [el |-> i] or from a sequence of nodes    *)
(* [el |-> 0, seq |-> <<i, ...>>], and applies operations, each to what the *)
(* one before selected:                                                     *)
(*   desc            elements within the node                               *)
(*   elems           elements                                               *)
(*   name   n        elements of the name                                   *)
(*   re     re       elements whose name begins with a match of the regular *)
(*                   expression, [cs |-> characters, lo |-> at least how    *)
(*                   many, many |-> whether any number], and [cs |-> <<>>]  *)
(*                   for the end of the name                                *)
(*   value  t        elements with that value                               *)
(*   attr   n        elements with that attribute                           *)
(*   attrv  n, t     elements with that attribute with that value           *)
(*   foll            later siblings                                         *)
(*   pat    pat      elements whose path from the node matches the pattern  *)
(* For an element, elems, name, re, value, attr and attrv start from its    *)
(* children.                                                                *)
EXTENDS UXPattern

Op(o) == [o |-> o, n |-> <<>>, t |-> <<>>, re |-> <<>>, pat |-> <<>>]

DescElems(h, i) == SelectSeq(Tail(SubtreeSeq(h, i)), LAMBDA j : h[j].k = "E")

RECURSIVE PathFrom(_, _, _)
PathFrom(h, i, j) == IF j = i THEN <<>> ELSE Append(PathFrom(h, i, h[j].p), h[j].n)

(* The patterns step by step, going down with the set of positions reached *)
RECURSIVE Walk(_, _, _, _)
Walk(h, i, pat, qs) ==
  FoldLeft(LAMBDA s, j :
             IF h[j].k # "E" THEN s
             ELSE LET q2 == NStep(pat, qs, h[j].n) IN
                  s \o (IF NAccept(pat, q2) THEN <<j>> ELSE <<>>) \o (IF q2 = {} THEN <<>> ELSE Walk(h, j, pat, q2)),
           <<>>, h[i].c)

(* Positions of s reached from p by an item *)
RECURSIVE Times(_, _, _, _)
Times(it, s, p, n) ==   \* n more at least
  (IF n = 0 THEN {p} ELSE {})
  \cup (IF p <= Len(s) /\ (\E k \in 1..Len(it.cs) : it.cs[k] = s[p]) /\ (n > 0 \/ it.many)
        THEN Times(it, s, p + 1, IF n > 0 THEN n - 1 ELSE 0) ELSE {})
ReStep(it, s, ps) == IF it.cs = <<>> THEN {p \in ps : p = Len(s) + 1} ELSE UNION {Times(it, s, p, it.lo) : p \in ps}
ReMatch(re, s) == FoldLeft(LAMBDA ps, it : ReStep(it, s, ps), {1}, re) # {}

AttrOk(h, j, n) == \E k \in 1..Len(h[j].a) : h[j].a[k][1] = n
AttrValOk(h, j, n, t) == \E k \in 1..Len(h[j].a) : h[j].a[k] = <<n, t>>

Index(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

SelStep(h, src, op) ==
  LET seq == IF src.el # 0 THEN h[src.el].c ELSE src.seq
      Elems == SelectSeq(seq, LAMBDA j : h[j].k = "E")
      res ==
        CASE op.o = "desc" -> DescElems(h, src.el)
          [] op.o = "pat" -> SelectSeq(DescElems(h, src.el), LAMBDA j : Match(PathFrom(h, src.el, j), op.pat))
          [] op.o = "foll" -> LET c == h[h[src.el].p].c IN SubSeq(c, Index(c, src.el) + 1, Len(c))
          [] op.o = "elems" -> Elems
          [] op.o = "name" -> SelectSeq(Elems, LAMBDA j : h[j].n = op.n)
          [] op.o = "re" -> SelectSeq(Elems, LAMBDA j : ReMatch(op.re, h[j].n))
          [] op.o = "value" -> SelectSeq(Elems, LAMBDA j : ValueOf(h, j) = op.t)
          [] op.o = "attr" -> SelectSeq(Elems, LAMBDA j : AttrOk(h, j, op.n))
          [] op.o = "attrv" -> SelectSeq(Elems, LAMBDA j : AttrValOk(h, j, op.n, op.t))
  IN [el |-> 0, seq |-> res]

Selected(h, src, ops) == FoldLeft(LAMBDA s, op : SelStep(h, s, op), src, ops).seq
=============================================================================
