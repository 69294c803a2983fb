------------------------------ MODULE MCNames -------------------------------
(* Explores XML documents with declarations of namespaces, and prints each  *)
EXTENDS UXNames, TLC, Json
CONSTANT MaxItems

X == <<120>>  Y == <<121>>  U == <<117>>  V == <<118>>
A == <<97>>  B == <<98>>  D == <<>>
St(p, n, ns, a, e) == [It("start") EXCEPT !.p = p, !.n = n, !.ns = ns, !.a = a, !.e = e]
En(p, n) == [It("end") EXCEPT !.p = p, !.n = n]
At(p, n) == <<p, n, <<49>>>>

Starts == { St(D, A, <<>>, <<>>, FALSE), St(D, A, << <<D, U>> >>, <<>>, FALSE), St(D, B, << <<D, <<>>>> >>, << At(D, A) >>, FALSE), St(D, A, <<>>, << At(X, B) >>, TRUE),
            St(X, A, << <<X, U>> >>, << At(X, B), At(D, A) >>, FALSE), St(X, B, << <<X, V>> >>, <<>>, TRUE), St(X, B, <<>>, << At(XMLP, B) >>, FALSE), St(D, A, << <<D, V>>, <<X, U>> >>, <<>>, FALSE),
            St(Y, A, << <<Y, U>> >>, << At(Y, B) >>, FALSE), St(Y, B, << <<Y, V>>, <<X, U>> >>, <<>>, TRUE), St(Y, B, <<>>, <<>>, FALSE) }
Ends == { En(p, n) : p \in {D, X, Y}, n \in {A, B} }
Others == { [It("text") EXCEPT !.t = <<120>>], [It("cdata") EXCEPT !.t = <<60>>] }

VARIABLES items, st
Init == items = <<>> /\ st = NInit
Next ==
  /\ Len(items) < MaxItems
  /\ \E it \in Starts \cup Ends \cup Others :
       /\ items' = Append(items, it)
       /\ st' = NStep(st, it)
       /\ st'.r.ok /\ Len(st'.r.stack) <= MaxItems - Len(items')
       /\ it.i \in {"text", "cdata"} => st.r.phase = 1
       /\ st'.r.phase = 2 => PrintT("SC " \o ToJson([x |-> items', simple |-> Simple(st')]))
Spec == Init /\ [][Next]_<<items, st>>

Whole == st.r.phase = 2
InvReduced == /\ Len(st.x) = Len(st.r.evs) /\ Len(st.obs) = Len(st.x)
              /\ \A k \in 1..Len(st.x) : st.x[k].k = st.r.evs[k].k /\ (st.x[k].k # "T" => st.x[k].n = st.r.evs[k].n) /\ (st.x[k].k = "T" => st.x[k].t = st.r.evs[k].t)
\* what is in scope at the end of an element is what was at its start
Match(k) == CHOOSE j \in 1..k : st.x[j].k = "S" /\ st.r.evs[j].s = st.r.evs[k].s /\ \A m \in (j + 1)..k : st.x[m].k = "S" => st.r.evs[m].s # st.r.evs[k].s
InvScope == \A k \in 1..Len(st.x) : st.x[k].k = "E" => st.obs[k] = st.obs[Match(k)]
InvFunction == \A k \in 1..Len(st.obs) : \A d, e \in st.obs[k] : d[1] = e[1] => d = e
\* names are of namespaces in scope
InvUsed == \A k \in 1..Len(st.x) : st.x[k].k = "S" /\ st.x[k].u # <<>> => \E d \in st.obs[k] : d[2] = st.x[k].u
InvSimple == Simple(st) => /\ \A k \in 1..Len(st.obs) : st.obs[k] \subseteq Cumulative(st)
                           /\ Cumulative(st) = Declared(st)
InvRound == Whole /\ Simple(st) => LET w == Names(Rewritten(st)) IN w.r.ok /\ w.r.phase = 2 /\ w.x = st.x /\ Simple(w)
=============================================================================
