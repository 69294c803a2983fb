------------------------------ MODULE MCParser ------------------------------
(* Exploration of the parser specification: checks its invariants on every  *)
(* reachable state and prints, for every abstract state and next character, *)
(* one text which gets there, and a way to complete it to a document.       *)
EXTENDS UXParser, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxDepth, MaxRef, Emit, Abstract

VARIABLES st, txt, dead

vars == <<st, txt, dead>>

Init == st = PInit(FALSE) /\ txt = <<>> /\ dead = 0

Bounded(s) == /\ Len(s.stack) <= MaxDepth
              /\ Len(s.name) <= 2 /\ Len(s.aname) <= 2
              /\ Len(s.buf) <= 2 /\ Len(s.ref) <= MaxRef /\ Len(s.attrs) <= 2

\* Rejected texts get a few more characters, so that what comes after an error matters.
Next ==
  \E c \in Alphabet :
    /\ Len(txt) < MaxLen
    /\ dead < 2
    /\ Bounded(st)
    /\ st' = Step(st, c)
    /\ txt' = Append(txt, c)
    /\ dead' = IF st'.mode \in {"reject", "unspec"} THEN dead + 1 ELSE 0
    /\ Emit => PrintT("SC " \o ToJson([t |-> txt', c |-> Complete(st'), m |-> st'.mode]))

Spec == Init /\ [][Next]_vars

Cap(n, k) == IF n > k THEN k ELSE n

AbsRef(r) ==
  IF r = <<>> THEN <<0>>
  ELSE IF r[1] = HASH THEN IF Len(r) = 1 THEN <<1>>
                           ELSE IF r[2] = LX THEN <<2, Cap(Len(r), 4), RefChar(r) # 0>>
                           ELSE <<3, Cap(Len(r), 3), RefChar(r) # 0>>
  ELSE <<4, Cap(Len(r), 2), RefChar(r) # 0>>

\* Abstraction: the sizes of buffers (capped) instead of what is in them
AbsView ==
  IF Abstract THEN
    <<st.mode, Len(st.stack), IF st.mode = "ename" /\ st.stack # <<>> THEN st.name = Last(st.stack) ELSE FALSE,
      Cap(Len(st.name), 2), Cap(Len(st.aname), 2), st.quote * (IF st.mode \in {"aval", "ref"} THEN 1 ELSE 0),
      Cap(Len(st.buf), 1), AbsRef(st.ref), IF st.mode = "ref" THEN st.back ELSE "pre", Cap(Len(st.attrs), 2), st.attrs # <<>> /\ st.mode = "aname" /\ HasAttr(st.attrs, st.aname),
      st.tags, st.cr, dead>>
  ELSE <<st, txt, dead>>

InvType == TypeOK(st)
InvNested == Nested(st)
InvText == NoAdjacentText(st)
InvRoot == OneRoot(st)
\* A state which has not rejected can be completed to a document (without what the name of an end tag prevents).
InvComplete ==
  st.mode \in Modes \ {"reject", "unspec", "post", "ename", "etag", "slash", "ref", "aname", "aeq", "lt"} =>
     (st.mode \in {"aval0", "aval"} /\ HasAttr(st.attrs, st.aname))
     \/ Outcome(Feed(st, Complete(st))) = "ok"
\* Cutting the text anywhere makes no difference, and events are only ever added.
InvSplit ==
  LET n == Len(txt) IN
  \A k \in 0..n :
     LET p == Run(SubSeq(txt, 1, k)) IN
     /\ Feed(p, SubSeq(txt, k + 1, n)) = st
     /\ Len(p.evs) <= Len(st.evs) /\ SubSeq(st.evs, 1, Len(p.evs)) = p.evs
=============================================================================
