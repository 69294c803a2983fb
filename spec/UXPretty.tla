------------------------------ MODULE UXPretty ------------------------------
(* Pretty printing.                                                         *)
(*                                                                          *)
(* PrettyOk(h, i, g, ind, depth): whether the tree g, in whose nodes field  *)
(* id is the index in the tree h of the node it was there, or 0 if it is    *)
(* new, may come from pretty printing the element i of h, which is at the   *)
(* given depth, with the indent ind.                                        *)
(* Pretty(h, i, ind, depth): a way of doing it.                             *)
EXTENDS UXTree

Blank(t) == \A k \in 1..Len(t) : IsWS(t[k])
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
NL(ind, d) == <<10>> \o Rep(ind, d)

RECURSIVE DepthIn(_, _, _)
DepthIn(h, i, j) == IF j = i THEN 0 ELSE 1 + DepthIn(h, i, h[j].p)

Within(h, i) == ToSet(SubtreeSeq(h, i))

\* what must still be there
Must(h, i) == LET below == Within(h, i) \ {i} IN
  SelectSeq([k \in 1..Len(h) |-> k], LAMBDA j : j \notin below \/ h[j].k = "E" \/ ~Blank(h[j].t))

Kept(g) == SelectSeq([k \in 1..Len(g) |-> k], LAMBDA k : g[k].id # 0)

Clean(g) == [k \in 1..Len(g) |-> [k |-> g[k].k, n |-> g[k].n, a |-> g[k].a, t |-> g[k].t, p |-> g[k].p, c |-> g[k].c]]

IdOf(g, k) == IF k = 0 THEN 0 ELSE g[k].id

\* Text before the m-th child since the last element
Run0(g, c, m) ==
  LET els == {x \in 1..(m - 1) : g[c[x]].k = "E"}
      from == IF els = {} THEN 1 ELSE 1 + CHOOSE x \in els : \A y \in els : y <= x
  IN FoldLeft(LAMBDA s, x : s \o g[x].t, <<>>, SubSeq(c, from, m - 1))

HasElems(g, k) == \E m \in 1..Len(g[k].c) : g[g[k].c[m]].k = "E"

\* Layout of the element k of g
LayoutOk(g, k, ind, d) ==
  LET c == g[k].c IN
  HasElems(g, k) =>
    /\ \A m \in 1..Len(c) : g[c[m]].k = "E" => LET r == Run0(g, c, m) IN Blank(r) => r = NL(ind, d + 1)
    /\ LET r == Run0(g, c, Len(c) + 1) IN Blank(r) => r = NL(ind, d)

PrettyIssue(h, i, g, ind, depth) ==
  LET kept == Kept(g)
      ids == [k \in 1..Len(kept) |-> g[kept[k]].id]
      must == Must(h, i)
      ii == CHOOSE k \in 1..Len(g) : g[k].id = i
      within == Within(g, ii)
  IN IF \E k \in 1..Len(ids) : ids[k] \notin 1..Len(h) THEN "strange"
     ELSE IF ~(\A k \in 1..Len(g) : \A m \in 1..Len(g[k].c) : g[k].c[m] \in 1..Len(g)) \/ ~Consistent(Clean(g)) THEN "links"
     ELSE IF \E j, k \in 1..Len(ids) : j # k /\ ids[j] = ids[k] THEN "twice"
     ELSE IF SelectSeq(ids, LAMBDA x : \E k \in 1..Len(must) : must[k] = x) # must THEN "kept"
     ELSE IF \E k \in 1..Len(kept) : LET x == g[kept[k]] IN
               x.k # h[x.id].k \/ x.n # h[x.id].n \/ x.a # h[x.id].a \/ x.t # h[x.id].t \/ IdOf(g, x.p) # h[x.id].p THEN "altered"
     ELSE IF \E k \in 1..Len(g) : g[k].id = 0 /\ (g[k].k # "T" \/ ~Blank(g[k].t) \/ k \notin within) THEN "added"
     ELSE IF \E k \in within : g[k].k = "E" /\ ~HasElems(g, k) /\ ~Blank(ValueOf(h, g[k].id)) /\ [m \in 1..Len(g[k].c) |-> g[g[k].c[m]].id] # h[g[k].id].c THEN "text-only"
     ELSE IF \E k \in within : g[k].k = "E" /\ ~LayoutOk(g, k, ind, depth + DepthIn(g, ii, k)) THEN "layout"
     ELSE "ok"

PrettyOk(h, i, g, ind, depth) == PrettyIssue(h, i, g, ind, depth) = "ok"

-----------------------------------------------------------------------------
(* Children of an element as a sequence of <<node of h, or 0 for new text, text>> *)
NewKids(h, j, ind, d) ==
  LET step(s, c) ==
        IF h[c].k = "E" THEN [out |-> (IF s.run = 0 THEN Append(s.out, <<0, NL(ind, d + 1)>>) ELSE s.out) \o << <<c, <<>>>> >>, run |-> 0]
        ELSE IF ~Blank(h[c].t) THEN [out |-> Append(s.out, <<c, <<>>>>), run |-> 2]
        ELSE IF s.run # 1 THEN [out |-> Append(s.out, <<0, NL(ind, d + 1)>>), run |-> 1]
        ELSE s
      r == FoldLeft(step, [out |-> <<>>, run |-> 0], h[j].c)
      o == IF r.run = 1 THEN Front(r.out) ELSE r.out
  IN IF ~HasElems(h, j) /\ ~Blank(ValueOf(h, j)) THEN [m \in 1..Len(h[j].c) |-> <<h[j].c[m], <<>>>>]
     ELSE IF r.run \in {0, 1} THEN Append(o, <<0, NL(ind, d)>>) ELSE o

RECURSIVE Lay(_, _, _, _, _, _, _)
\* s is the tree so far; adds node j of h as a child of p
Lay(h, i, s, p, j, ind, d) ==
  LET me == Len(s) + 1
      inside == d >= 0
      base == AddChild(Append(s, [k |-> h[j].k, n |-> h[j].n, a |-> h[j].a, t |-> h[j].t, p |-> p, c |-> <<>>, id |-> j]), p, me)
      d2 == IF j = i THEN 0 ELSE IF inside THEN d ELSE -1
      kids == IF h[j].k = "T" THEN <<>> ELSE IF d2 >= 0 THEN NewKids(h, j, ind[1], ind[2] + d2) ELSE [m \in 1..Len(h[j].c) |-> <<h[j].c[m], <<>>>>]
  IN FoldLeft(LAMBDA t, x :
        IF x[1] = 0 THEN AddChild(Append(t, [k |-> "T", n |-> <<>>, a |-> <<>>, t |-> x[2], p |-> me, c |-> <<>>, id |-> 0]), me, Len(t) + 1)
        ELSE Lay(h, i, t, me, x[1], ind, IF d2 >= 0 THEN d2 + 1 ELSE -1), base, kids)
Pretty(h, i, ind, depth) == Lay(h, i, <<>>, 0, 1, <<ind, depth>>, -1)
=============================================================================
