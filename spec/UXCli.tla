-------------------------------- MODULE UXCli --------------------------------
(* The command line tool.                                                   *)
(*                                                                          *)
(* An invocation is a record                                                *)
(*   srcs  sequence of trees (as in UXTree), the source documents           *)
(*   cmd   "expr", "match" or "find"                                        *)
(*   e     MicroXPath expression (expr, match)                              *)
(*   f     expression for each result; o is "none" if there is none         *)
(*   part  name of elements handled as if they were documents; <<>>: none   *)
(*   txt   text to find       atts  names of attributes to show             *)
(* What it prints is a sequence of [h |-> tree, x |-> item] records, or for *)
(* "find" a sequence of texts.                                              *)
EXTENDS UXPath

Outermost(h, n) ==
  SelectSeq([i \in 1..Len(h) |-> i], LAMBDA i : h[i].k = "E" /\ h[i].n = n /\ \A j \in Ancestors(h, i) : h[j].n # n)
Units(c, h) == IF c.part = <<>> THEN <<h>> ELSE LET s == Outermost(h, c.part) IN [m \in 1..Len(s) |-> Extract(h, s[m])]
AllUnits(c) == FoldLeft(LAMBDA acc, h : acc \o Units(c, h), <<>>, c.srcs)

ElemSeq(h) == SelectSeq([i \in 1..Len(h) |-> i], LAMBDA i : h[i].k = "E")

(* Value of the command for one document, as in UXPath *)
Matches(c, h, alt) ==
  IF c.cmd = "expr" THEN Ev(h, c.e, Rt, <<>>, alt)
  ELSE FoldLeft(LAMBDA acc, i : IF Bad(acc) THEN acc ELSE Cat(acc, Ev(h, c.e, Nd(i), <<>>, alt)), R(<<>>), ElemSeq(h))
Result(c, h, alt) ==
  LET r == Matches(c, h, alt) IN
  IF c.f.o = "none" THEN r ELSE FlatM(r, LAMBDA y : Ev(h, c.f, y, <<>>, alt))

(* Locations *)
ShowAtts(h, i, atts) ==
  FoldLeft(LAMBDA s, n :
             LET v == SelectSeq(h[i].a, LAMBDA x : x[1] = n) IN
             IF v = <<>> THEN s ELSE s \o <<91, 64>> \o n \o <<61, 34>> \o v[1][2] \o <<34, 93>>, <<>>, atts)
RECURSIVE Location(_, _, _)
Location(h, i, atts) ==
  (IF h[i].p = 0 THEN <<>> ELSE Location(h, h[i].p, atts) \o <<47>>) \o h[i].n \o ShowAtts(h, i, atts)
Hits(h, i, t) == Len(SelectSeq(h[i].c, LAMBDA j : h[j].k = "T" /\ Finds(h[j].t, t) # {}))
(* Once for each element, or once for each text in it *)
Found(c, h, every) ==
  FoldLeft(LAMBDA s, i : LET n == Hits(h, i, c.txt) IN
                         s \o [m \in 1..(IF every \/ n = 0 THEN n ELSE 1) |-> Location(h, i, c.atts)], <<>>, ElemSeq(h))

-----------------------------------------------------------------------------
(* What is printed for an item takes a part of the output from position p;  *)
(* After gives the position after it, 0 if it is not there.                 *)
HasAt(out, p, s) == p + Len(s) - 1 <= Len(out) /\ SubSeq(out, p, p + Len(s) - 1) = s
EndsAt(out, p, s) == IF HasAt(out, p, s) /\ p + Len(s) <= Len(out) /\ out[p + Len(s)] = LF THEN p + Len(s) + 1 ELSE 0
Lower(s) == [m \in 1..Len(s) |-> IF s[m] \in 65..90 THEN s[m] + 32 ELSE s[m]]

\* the end of the line at p, 0 if it does not end
RECURSIVE LineEnd(_, _)
LineEnd(out, p) == IF p > Len(out) THEN 0 ELSE IF out[p] = LF THEN p ELSE LineEnd(out, p + 1)

\* markup goes on until an element has been read
RECURSIVE ReadElem(_, _, _)
ReadElem(st, out, p) ==
  IF p > Len(out) \/ st.mode = "reject" THEN [p |-> 0, evs |-> <<>>]
  ELSE IF st.mode = "post" THEN [p |-> IF out[p] = LF THEN p + 1 ELSE 0, evs |-> st.evs]
  ELSE ReadElem(Step(st, out[p]), out, p + 1)
AfterElem(h, i, out, p) ==
  IF p > Len(out) \/ out[p] # LT THEN 0
  ELSE LET r == ReadElem(PInit(TRUE), out, p) IN IF r.p # 0 /\ r.evs = TreeEvents(h, i) THEN r.p ELSE 0

IsNumText(t, x) ==
  LET s == Lower(t) IN
  CASE x.t = <<1>> -> s = <<110, 97, 110>>
    [] x.t = <<2>> -> s \in {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
    [] x.t = <<3>> -> s \in {<<45, 105, 110, 102>>, <<45, 105, 110, 102, 105, 110, 105, 116, 121>>}
    [] OTHER -> LET n == ParseNum(t) IN n.u \/ n.x = x

After(h, x, out, p) ==
  CASE x.k = "R" -> AfterElem(h, 1, out, p)
    [] x.k = "N" -> IF h[x.i].k = "E" THEN AfterElem(h, x.i, out, p)
                    ELSE LET raw == EndsAt(out, p, h[x.i].t) IN raw
    [] x.k = "A" -> EndsAt(out, p, x.v)
    [] x.k = "S" -> EndsAt(out, p, x.t)
    [] x.k \in {"B", "F"} ->
         LET e == LineEnd(out, p)
             t == SubSeq(out, p, e - 1)
         IN IF e = 0 THEN 0
            ELSE IF x.k = "B" THEN IF Lower(t) = (IF x.i = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>) THEN e + 1 ELSE 0
            ELSE IF IsNumText(t, x) THEN e + 1 ELSE 0
    [] OTHER -> 0

Printed(items, out) == FoldLeft(LAMBDA p, it : IF p = 0 THEN 0 ELSE After(it.h, it.x, out, p), 1, items) = Len(out) + 1

Lines(ts) == FoldLeft(LAMBDA s, t : s \o t \o <<LF>>, <<>>, ts)
Items(h, r) == [m \in 1..Len(r.s) |-> [h |-> h, x |-> r.s[m]]]
=============================================================================
