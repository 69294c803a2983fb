----------------------------- MODULE UXPattern ------------------------------
(* Element patterns, and senders which deliver the subtrees matching them.  *)
(*                                                                          *)
(* A pattern is a sequence of steps [k |-> "name", n |-> <<names>>] (one of *)
(* the names), [k |-> "any"] ('*') or [k |-> "deep"] ('**': any number of   *)
(* elements, including none).                                               *)
EXTENDS UXTree

StepOk(s, n) == s.k = "any" \/ (s.k = "name" /\ \E k \in 1..Len(s.n) : s.n[k] = n)

(* Whether the path (names from the outermost element in) matches the pattern: definition *)
RECURSIVE Match(_, _)
Match(path, pat) ==
  IF pat = <<>> THEN path = <<>>
  ELSE IF pat[1].k = "deep" THEN Match(path, Tail(pat)) \/ (path # <<>> /\ Match(Tail(path), pat))
  ELSE path # <<>> /\ StepOk(pat[1], path[1]) /\ Match(Tail(path), Tail(pat))

(* The same by an automaton: a state is a position in the pattern; it is    *)
(* after the steps before that position.                                    *)
RECURSIVE Skip(_, _)
Skip(pat, q) == IF q <= Len(pat) /\ pat[q].k = "deep" THEN {q} \cup Skip(pat, q + 1) ELSE {q}
NInit(pat) == Skip(pat, 1)
NStep(pat, qs, n) ==
  UNION { IF q > Len(pat) THEN {}
          ELSE IF pat[q].k = "deep" THEN {q}
          ELSE IF StepOk(pat[q], n) THEN Skip(pat, q + 1) ELSE {} : q \in qs } 
  \cup UNION { IF q <= Len(pat) /\ pat[q].k = "deep" THEN Skip(pat, q) ELSE {} : q \in qs }
NAccept(pat, qs) == (Len(pat) + 1) \in qs

(* A sender: takes events one by one, and delivers the outermost matching   *)
(* subtrees.  State: [path, open |-> number of the event which opened the   *)
(* subtree being built or 0, depth |-> its depth, out |-> deliveries        *)
(* [e |-> number of the event which ended it, b |-> of the one which began it]] *)
SInit == [path |-> <<>>, open |-> 0, depth |-> 0, out |-> <<>>, k |-> 0]
SStep(pat, s, e) ==
  LET k == s.k + 1 IN
  CASE e.k = "S" ->
         LET path == Append(s.path, e.n)
             m == s.open = 0 /\ Match(path, pat)
         IN [s EXCEPT !.k = k, !.path = path, !.open = IF m THEN k ELSE @, !.depth = IF m THEN Len(path) ELSE @]
    [] e.k = "E" ->
         IF s.open # 0 /\ s.depth = Len(s.path)
         THEN [k |-> k, path |-> Front(s.path), open |-> 0, depth |-> 0, out |-> Append(s.out, [b |-> s.open, e |-> k])]
         ELSE [s EXCEPT !.k = k, !.path = Front(@)]
    [] OTHER -> [s EXCEPT !.k = k]

Deliveries(evs, pat) == FoldLeft(LAMBDA s, e : SStep(pat, s, e), SInit, evs).out
Delivered(evs, d) == TreeOf(SubSeq(evs, d.b, d.e))
=============================================================================
