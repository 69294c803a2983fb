------------------------------- MODULE UXHtml -------------------------------
(* The tree which HTML parsing constructs.                                  *)
(*                                                                          *)
(* The HTML parsing algorithm works on a document by means of a few         *)
(* operations; what they do to it is specified here.  A heap is a sequence  *)
(* of nodes; node 1 is the document.  A node is                             *)
(*   k   "D" document, "E" element, "T" text, "C" comment, "Y" doctype      *)
(*   n   name as given   ns  namespace                                      *)
(*   a   attributes, [pre, loc, v] records in the order of their setting    *)
(*   t   text (or comment's)      p  parent, 0 if none      c  children     *)
(* Operations are records with field o:                                     *)
(*   elem n ns    makes an element            comm t   doct n                *)
(*   clone e      makes an element with the name and attributes of e        *)
(*   attrs e a    gives attributes            put e a  gives one attribute   *)
(*   app p c      appends c, which has no parent                             *)
(*   bef p c r    inserts c, which has no parent, before the child r of p   *)
(*   txt p t      appends text                txb p t r  inserts text before *)
(*   rem p c      removes child c             rep p q  moves all children of *)
(*                                            p to the end of q             *)
EXTENDS UXTree

HNode(k, n, ns, t) == [k |-> k, n |-> n, ns |-> ns, a |-> <<>>, t |-> t, p |-> 0, c |-> <<>>]
HInit == <<HNode("D", <<>>, <<>>, <<>>)>>

PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InsBefore(s, r, x) == LET i == PosOf(s, r) IN SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
SameAttr(x, y) == x.pre = y.pre /\ x.loc = y.loc
PutAttr(a, x) ==
  IF \E i \in 1..Len(a) : SameAttr(a[i], x) THEN [i \in 1..Len(a) |-> IF SameAttr(a[i], x) THEN x ELSE a[i]] ELSE Append(a, x)

RECURSIVE HAnc(_, _)
HAnc(h, i) == IF h[i].p = 0 THEN {} ELSE {h[i].p} \cup HAnc(h, h[i].p)

HLegal(h, op) ==
  CASE op.o \in {"elem", "comm", "doct"} -> TRUE
    [] op.o \in {"clone", "attrs", "put"} -> h[op.e].k = "E"
    [] op.o = "app" -> h[op.p].k \in {"E", "D"} /\ h[op.c].p = 0 /\ op.c # op.p /\ op.c \notin HAnc(h, op.p) /\ h[op.c].k # "D"
    [] op.o = "bef" -> h[op.p].k = "E" /\ h[op.c].p = 0 /\ h[op.c].k = "E" /\ op.c # op.p /\ op.c \notin HAnc(h, op.p) /\ IsChild(h, op.p, op.r)
    [] op.o = "txt" -> h[op.p].k = "E"
    [] op.o = "txb" -> h[op.p].k = "E" /\ IsChild(h, op.p, op.r)
    [] op.o = "rem" -> h[op.p].k = "E" /\ IsChild(h, op.p, op.c)
    [] op.o = "rep" -> h[op.p].k = "E" /\ h[op.q].k = "E" /\ op.p # op.q /\ op.p \notin HAnc(h, op.q)

HApply(h, op) ==
  LET n == Len(h) + 1 IN
  CASE op.o = "elem" -> Append(h, HNode("E", op.n, op.ns, <<>>))
    [] op.o = "comm" -> Append(h, HNode("C", <<>>, <<>>, op.t))
    [] op.o = "doct" -> Append(h, HNode("Y", op.n, <<>>, <<>>))
    [] op.o = "clone" -> Append(h, [HNode("E", h[op.e].n, h[op.e].ns, <<>>) EXCEPT !.a = h[op.e].a])
    [] op.o = "attrs" -> [h EXCEPT ![op.e].a = FoldLeft(PutAttr, @, op.a)]
    [] op.o = "put" -> [h EXCEPT ![op.e].a = PutAttr(@, op.a)]
    [] op.o = "app" -> [h EXCEPT ![op.p].c = Append(@, op.c), ![op.c].p = op.p]
    [] op.o = "bef" -> [h EXCEPT ![op.p].c = InsBefore(@, op.r, op.c), ![op.c].p = op.p]
    [] op.o = "txt" -> [Append(h, [HNode("T", <<>>, <<>>, op.t) EXCEPT !.p = op.p]) EXCEPT ![op.p].c = Append(@, n)]
    [] op.o = "txb" -> [Append(h, [HNode("T", <<>>, <<>>, op.t) EXCEPT !.p = op.p]) EXCEPT ![op.p].c = InsBefore(@, op.r, n)]
    [] op.o = "rem" -> [h EXCEPT ![op.p].c = SelectSeq(@, LAMBDA j : j # op.c), ![op.c].p = 0]
    [] op.o = "rep" ->
         LET kids == h[op.p].c IN
         [j \in 1..Len(h) |->
            IF j = op.p THEN [h[j] EXCEPT !.c = <<>>]
            ELSE IF j = op.q THEN [h[j] EXCEPT !.c = @ \o kids]
            ELSE IF h[j].p = op.p THEN [h[j] EXCEPT !.p = op.q] ELSE h[j]]

-----------------------------------------------------------------------------
(* What a user sees of it *)
LocalName(n) == LET cs == {i \in 1..Len(n) : n[i] = COLON} IN IF cs = {} THEN n ELSE LET m == CHOOSE i \in cs : \A j \in cs : j <= i IN SubSeq(n, m + 1, Len(n))
XMLNS == <<120, 109, 108, 110, 115>>
Declares(x) == x.pre = XMLNS \/ (x.pre = <<>> /\ Len(x.loc) >= 5 /\ SubSeq(x.loc, 1, 5) = XMLNS)

(* Elements of the document; the first is the top *)
Tops(h) == SelectSeq(h[1].c, LAMBDA i : h[i].k = "E")

RECURSIVE HEvents(_, _, _)
HEvents(h, i, evs) ==
  CASE h[i].k = "T" -> AddText(evs, h[i].t)
    [] h[i].k = "E" -> Append(FoldLeft(LAMBDA e, j : HEvents(h, j, e), Append(evs, [k |-> "S", n |-> LocalName(h[i].n), a |-> h[i].a]), h[i].c), [k |-> "E"])
    [] OTHER -> evs

(* Names of attributes are those in the document, of foreign ones the local part.  Whether namespace *)
(* declarations are attributes is not specified, nor which of several with the same local name is.   *)
AttrsAgree(want, got) ==
  /\ \A i, j \in 1..Len(got) : i # j => got[i][1] # got[j][1]
  /\ \A i \in 1..Len(got) : \E k \in 1..Len(want) : want[k].loc = got[i][1] /\ want[k].v = got[i][2]
  /\ \A k \in 1..Len(want) : Declares(want[k]) \/ \E i \in 1..Len(got) : got[i][1] = want[k].loc

EventAgrees(w, g) ==
  /\ w.k = g.k
  /\ CASE w.k = "S" -> w.n = g.n /\ AttrsAgree(w.a, g.a)
       [] w.k = "T" -> w.t = g.t
       [] OTHER -> TRUE

EventsAgree(ws, gs) == Len(ws) = Len(gs) /\ \A k \in 1..Len(ws) : EventAgrees(ws[k], gs[k])
HConsistent(h) == Consistent([i \in 1..Len(h) |-> [h[i] EXCEPT !.k = IF @ = "D" THEN "E" ELSE @]])

(* The element of that name which is a child of i, the first; 0 if there is none *)
ChildNamed(h, i, n) ==
  LET s == SelectSeq(h[i].c, LAMBDA j : h[j].k = "E" /\ h[j].n = n) IN IF s = <<>> THEN 0 ELSE s[1]
BODY == <<98, 111, 100, 121>>
=============================================================================
