------------------------------- MODULE TrHeap -------------------------------
(* Judges recorded histories of tree mutations (P07) and of the lives of    *)
(* nodes (P18).  A case is [ops, life, obs]: obs[k] is what was seen after  *)
(* operation k, [err, nodes] with one record for each node ever made:       *)
(* [al |-> alive?] and, if alive, k, n, a, t, p, c as in UXTree, and v, its *)
(* string value.  use holds what operation use saw of element c: enc, its   *)
(* markup, desc and anc, its descendants and ancestors.  p is -1 if the parent seen is not a known node.           *)
EXTENDS UXTree, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

NewHeld(op, h, h2, held, life) ==
  CASE op.o = "drop" -> held \ {op.c}
    [] op.o = "hold" -> held \cup {op.c}
    [] op.o = "new" -> held \cup {Len(h2)}
    [] op.o = "parse" -> IF life THEN held \cup {Len(h) + 1} ELSE held \cup (Len(h) + 1)..Len(h2)
    [] op.o \in {"apps", "inss"} -> IF life THEN held ELSE held \cup {Len(h2)}
    [] OTHER -> held

Used(h, e, us) ==
  IF h[e].k = "T" THEN "ok"
  ELSE IF us = <<>> THEN "use-failed"
  ELSE LET u == us[1]
           st == RunX(u.enc)
       IN IF Outcome(st) # "ok" \/ st.evs # TreeEvents(h, e) THEN "use-markup"
          ELSE IF u.desc # SelectSeq(Tail(SubtreeSeq(h, e)), LAMBDA j : h[j].k = "E") THEN "use-descendants"
          ELSE IF ToSet(u.anc) # Ancestors(h, e) \/ Len(u.anc) # Cardinality(Ancestors(h, e)) THEN "use-ancestors"
          ELSE "ok"

Seen(h, alive, j, o) ==
  IF j \notin alive THEN IF o.al THEN "not-freed" ELSE "ok"
  ELSE IF ~o.al THEN "freed"
  ELSE IF o.p # h[j].p THEN "parent"
  ELSE IF o.c # h[j].c THEN "children"
  ELSE IF o.k # h[j].k \/ o.n # h[j].n \/ o.a # h[j].a \/ o.t # h[j].t THEN "content"
  ELSE IF o.v # ValueOf(h, j) THEN "value"
  ELSE "ok"

StepCase(s, op, ob, life) ==
  IF s.v # "ok" THEN s
  ELSE
    LET r == IF op.o \in {"drop", "hold", "use"} THEN [h |-> s.h, err |-> FALSE] ELSE Apply(s.h, op)
        held == NewHeld(op, s.h, r.h, s.held, life)
        alive == Alive(r.h, held)
        h2 == Bury(r.h, alive)
        n == Len(h2)
    IN [h |-> h2, held |-> held,
        v |-> IF ob.out = "hang" THEN "hang"
              ELSE IF (ob.out = "err") # r.err THEN IF r.err THEN op.o \o "-should-fail" ELSE op.o \o "-failed"
              ELSE IF Len(ob.nodes) # n THEN op.o \o "-nodes"
              ELSE LET bad == {j \in 1..n : Seen(h2, alive, j, ob.nodes[j]) # "ok"} IN
                   IF bad = {} THEN IF op.o = "use" THEN Used(h2, op.c, ob.use) ELSE "ok"
                   ELSE LET j == CHOOSE j \in bad : TRUE IN op.o \o "-" \o Seen(h2, alive, j, ob.nodes[j])]

Verdict(c) ==
  FoldLeft(LAMBDA s, k : StepCase(s, c.ops[k], c.obs[k], c.life),
           [h |-> <<>>, held |-> {}, v |-> "ok"], [k \in 1..Len(c.ops) |-> k]).v

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
