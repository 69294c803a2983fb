------------------------------ MODULE MCReduce ------------------------------
(* Explores XML documents as sequences of items, and prints each one (with  *)
(* a limit on what follows an error).                                       *)
EXTENDS UXReduce, TLC, Json
CONSTANTS MaxItems, MaxBad

X == <<120>>  Y == <<121>>  U == <<117>>  V == <<118>>
A == <<97>>  B == <<98>>  C == <<99>>
St(p, n, ns, a, e) == [It("start") EXCEPT !.p = p, !.n = n, !.ns = ns, !.a = a, !.e = e]
En(p, n) == [It("end") EXCEPT !.p = p, !.n = n]

Starts == { St(<<>>, A, <<>>, <<>>, FALSE), St(<<>>, B, << <<<<>>, U>> >>, << <<<<>>, A, <<49>>>> >>, FALSE),
            St(X, A, << <<X, U>> >>, << <<X, B, <<38>>>>, <<<<>>, A, <<34>>>> >>, FALSE), St(X, A, <<>>, <<>>, FALSE),
            St(Y, A, << <<X, V>>, <<Y, U>> >>, <<>>, TRUE), St(<<>>, A, << <<X, U>>, <<Y, U>> >>, << <<X, B, <<>>>>, <<Y, B, <<>>>> >>, FALSE),
            St(<<>>, B, << <<<<>>, <<>>>> >>, << <<XMLP, A, <<>>>> >>, FALSE), St(<<>>, A, <<>>, <<>>, TRUE) }
Ends == { En(<<>>, A), En(<<>>, B), En(X, A) }
Others == { [It("text") EXCEPT !.t = <<120, 60>>], [It("text") EXCEPT !.t = <<10>>], [It("cdata") EXCEPT !.t = <<60, 38>>], [It("ref") EXCEPT !.t = <<60>>],
            It("com"), It("pi"), It("decl"), [It("dtd") EXCEPT !.ent = << <<A, <<60, 101>>>> >>, !.att = << <<<<>>, A, <<>>, C, <<50>>>>, <<X, A, <<>>, C, <<51>>>>, <<<<>>, B, XMLP, C, <<52>>>> >>], [It("ent") EXCEPT !.n = A], It("bad") }

VARIABLES items, st, bad
Init == items = <<>> /\ st = RInit /\ bad = 0
Next ==
  /\ Len(items) < MaxItems /\ bad < MaxBad
  /\ \E it \in Starts \cup Ends \cup Others :
       /\ items' = Append(items, it)
       /\ st' = RStep(st, it)
       /\ bad' = IF st'.ok THEN 0 ELSE bad + 1
       \* what cannot be completed within the limit is of no interest, but for a sample of what is cut off
       /\ st'.ok => (Len(st'.stack) <= MaxItems - Len(items') \/ it.i = "start")
       /\ (st'.phase = 2 \/ ~st'.ok \/ it.i \in {"start", "text"}) => PrintT("SC " \o ToJson(items'))
Spec == Init /\ [][Next]_<<items, st, bad>>
\* What follows the error does not matter; how often the same item occurs in the prolog does not either
RView == <<st.ok, st.stack, st.scope, st.evs, st.phase, st.dtd, st.atts, bad>>

InvNested == LET o == OpenAfter(st.evs) IN o = st.open
InvRead == Read(items) = st
InvMicro == st.ok /\ st.phase = 2 => \A k \in 1..Len(st.evs) : st.evs[k].k = "S" => \A j \in 1..Len(st.evs[k].a) : st.evs[k].a[j][1] \in {A, B, C}
InvTree == st.ok /\ st.phase = 2 => LET t == TreeOf(st.evs) IN Consistent(t) /\ TreeEvents(t, 1) = st.evs
\* The reduced document, written down and read as MicroXML, is the same
=============================================================================
