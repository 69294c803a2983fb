------------------------------- MODULE TrHtml -------------------------------
(* Judges trees made by HTML parsing (P16).  A case is [lib |-> whether the *)
(* parser library accepts the text, ops |-> the operations on the document  *)
(* which the algorithm amounts to, as recorded, runs |-> results of parsing *)
(* the text with the real code in several ways].  A result is [how, way     *)
(* ("top", "lax", "frag"), out, h |-> tree as in UXTree with v, x |-> how   *)
(* it is encoded, xout].                                                    *)
(* A case with steps |-> TRUE has operations of the specification, done by  *)
(* way of the interface used by the parser library, and obs |-> what was    *)
(* seen after each: nodes as in UXTree with v.                              *)
EXTENDS UXHtml, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

FirstBad(vs) == LET b == SelectSeq(vs, LAMBDA v : v # "ok") IN IF b = <<>> THEN "ok" ELSE b[1]

Bare(h) == [j \in 1..Len(h) |-> [k |-> h[j].k, n |-> h[j].n, a |-> h[j].a, t |-> h[j].t, p |-> h[j].p, c |-> h[j].c]]

(* State of executing operations: [h, ok] *)
Exec(s, op) == IF ~s.ok THEN s ELSE IF ~HLegal(s.h, op) THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.h = HApply(@, op)]

AsciiName(n) == IsName(n) /\ \A j \in 1..Len(n) : n[j] < 128
Plain(c) == IsChar(c) /\ c # 13
(* Whether the tree can be written as XML at all *)
Sayable(g) ==
  \A j \in 1..Len(g) :
    /\ g[j].k = "E" => AsciiName(g[j].n) /\ \A m \in 1..Len(g[j].a) : AsciiName(g[j].a[m][1]) /\ g[j].a[m][1] # XMLNS
                                           /\ \A q \in 1..Len(g[j].a[m][2]) : Plain(g[j].a[m][2][q])
    /\ \A q \in 1..Len(g[j].t) : Plain(g[j].t[q])

VTree(h, top, r) ==
  IF r.out # "ok" THEN r.out \o ":" \o r.how
  ELSE IF ~\A j \in 1..Len(r.h) : \A m \in 1..Len(r.h[j].c) : r.h[j].c[m] \in 1..Len(r.h) THEN "links:" \o r.how
  ELSE LET g == Bare(r.h) IN
       IF ~Consistent(g) THEN "links:" \o r.how
       ELSE IF \E j \in 1..Len(g) : r.h[j].v # ValueOf(g, j) THEN "value:" \o r.how
       ELSE LET want == HEvents(h, top, <<>>)
                got == TreeEvents(g, 1)
            IN IF ~EventsAgree(want, got) THEN "differs:" \o r.how
               ELSE IF ~Sayable(g) THEN "ok"
               ELSE IF r.xout # "ok" THEN "encode-" \o r.xout \o ":" \o r.how
               ELSE LET st == RunX(r.x) IN
                    IF Outcome(st) # "ok" \/ st.evs # got THEN "encoded-differently:" \o r.how ELSE "ok"

VRun(h, r) ==
  LET tops == Tops(h) IN
  IF tops = <<>> THEN "ok"
  ELSE LET top == tops[1]
           body == ChildNamed(h, top, BODY)
       IN CASE r.way = "top" -> VTree(h, top, r)
            [] r.way = "frag" -> IF body = 0 THEN "ok" ELSE VTree(h, body, r)
            [] r.way = "lax" ->
                 \* the content is what is in the body, which follows an implied head
                 IF body = 0 \/ Len(h[top].c) < 2 \/ h[top].c[2] # body \/ h[body].c = <<>> \/ h[h[body].c[1]].k # "E" THEN "ok"
                 ELSE VTree(h, h[body].c[1], r)

VParse(c) ==
  IF ~c.lib THEN "ok:library"
  ELSE LET s == FoldLeft(Exec, [h |-> HInit, ok |-> TRUE], c.ops) IN
       IF ~s.ok THEN "bad-case"
       ELSE FirstBad([k \in 1..Len(c.runs) |-> VRun(s.h, c.runs[k])])

(* Steps: nodes numbered in the same way on both sides *)
RECURSIVE HValue(_, _)
HValue(h, j) == IF h[j].k = "T" THEN h[j].t ELSE FoldLeft(LAMBDA s, m : s \o HValue(h, m), <<>>, h[j].c)

SeenNode(h, j, o) ==
  IF h[j].k = "E"
  THEN o.k = "E" /\ o.n = LocalName(h[j].n) /\ AttrsAgree(h[j].a, o.a) /\ o.p = (IF h[j].p = 1 THEN 0 ELSE h[j].p) /\ o.c = h[j].c /\ o.v = HValue(h, j)
       /\ o.full = <<h[j].ns, h[j].n>>
  ELSE IF h[j].k = "T" THEN o.k = "T" /\ o.t = h[j].t /\ o.p = h[j].p /\ o.v = h[j].t
  ELSE IF h[j].k = "C" THEN o.k = "T" /\ o.t = <<>> /\ o.v = <<>> /\ (h[j].p > 1 => o.p = h[j].p)
  ELSE TRUE

StepCase(s, op, ob) ==
  IF s.v # "ok" THEN s
  ELSE IF ~HLegal(s.h, op) THEN [s EXCEPT !.v = "bad-case"]
  ELSE LET h2 == HApply(s.h, op) IN
       [h |-> h2,
        v |-> IF ob.out # "ok" THEN op.o \o "-" \o ob.out
              ELSE IF Len(ob.nodes) # Len(h2) THEN op.o \o "-nodes"
              ELSE IF \E j \in 2..Len(h2) : ~SeenNode(h2, j, ob.nodes[j]) THEN op.o \o "-differs" ELSE "ok"]

VSteps(c) == FoldLeft(LAMBDA s, k : StepCase(s, c.ops[k], c.obs[k]), [h |-> HInit, v |-> "ok"], [k \in 1..Len(c.ops) |-> k]).v

Verdict(c) == IF c.steps THEN VSteps(c) ELSE VParse(c)

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
