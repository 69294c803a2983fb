------------------------------ MODULE MCMutate ------------------------------
(* Histories of mutations of a small forest, with nodes let go of and taken *)
(* hold of.  Every (forest, operation) pair is printed once, with a history *)
(* which leads there.                                                       *)
EXTENDS UXTree, TLC, Json
CONSTANTS MaxElems, MaxTexts, MaxOps, WithLife

\* <a>x<b></b>x</a>
Docs == {<<60,97,62,120,60,98,62,60,47,98,62,120,60,47,97,62>>}

VARIABLES h, held, hist

Elems(f) == {i \in 1..Len(f) : f[i].k = "E"}
Live == Alive(h, held)

Ops ==
     (IF Cardinality(Elems(h)) < MaxElems THEN {[o |-> "new", n |-> <<97>>, a |-> <<>>]} ELSE {})
\cup (IF h = <<>> THEN {[o |-> "parse", x |-> x] : x \in Docs} ELSE {})
\cup {[o |-> "app", p |-> p, c |-> c] : p, c \in Elems(h) \cap Live}
\cup {[o |-> "ins", p |-> p, i |-> i, c |-> c] : p, c \in Elems(h) \cap Live, i \in 0..2}
\cup (IF Len(h) - Cardinality(Elems(h)) < MaxTexts
      THEN {[o |-> "apps", p |-> p, t |-> <<120>>] : p \in Elems(h) \cap Live}
           \cup {[o |-> "inss", p |-> p, i |-> i, t |-> <<120>>] : p \in Elems(h) \cap Live, i \in 0..1}
      ELSE {})
\cup {[o |-> "rem", p |-> p, c |-> c] : p \in Elems(h) \cap Live, c \in Live}
\cup (IF WithLife THEN {[o |-> "drop", c |-> c] : c \in held} \cup {[o |-> "hold", c |-> c] : c \in Live \ held} ELSE {})

NewHeld(op, h2) ==
  CASE op.o = "drop" -> held \ {op.c}
    [] op.o = "hold" -> held \cup {op.c}
    [] op.o = "new" -> held \cup {Len(h2)}
    [] op.o = "parse" -> IF WithLife THEN held \cup {Len(h) + 1} ELSE held \cup (Len(h) + 1)..Len(h2)
    [] op.o \in {"apps", "inss"} -> IF WithLife THEN held ELSE held \cup {Len(h2)}
    [] OTHER -> held

Init == h = <<>> /\ held = {} /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ \E op \in Ops :
       /\ IF op.o \in {"drop", "hold"} THEN TRUE ELSE Legal(h, op)
       /\ LET h2 == IF op.o \in {"drop", "hold"} THEN h ELSE Apply(h, op).h
          IN /\ held' = NewHeld(op, h2)
             /\ h' = Bury(h2, Alive(h2, held'))
       /\ hist' = Append(hist, op)
       /\ PrintT("SC " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<h, held, hist>>
MCView == <<h, held>>

InvConsistent == Consistent(h)
\* Nodes are alive exactly if held or in a subtree which is; holding something never keeps its parent alive.
InvAlive ==
  LET live == Live IN
  /\ held \subseteq live
  /\ \A i \in live : i \in held \/ (h[i].p # 0 /\ h[i].p \in live)
  /\ \A i \in live : ToSet(h[i].c) \subseteq live
  /\ \A i \in 1..Len(h) : h[i].p \in live \cup {0}
=============================================================================
