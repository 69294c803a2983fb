----------------------------- MODULE MCPattern ------------------------------
(* Explores senders: documents over two names, opened and closed step by    *)
(* step, against every pattern up to a length.                              *)
EXTENDS UXPattern, TLC, Json
CONSTANTS MaxNodes, MaxDepth, MaxPat

NmA == <<97>>  NmB == <<98>>
StepSet == { [k |-> "name", n |-> <<NmA>>], [k |-> "name", n |-> <<NmB>>], [k |-> "name", n |-> <<NmA, NmB>>], [k |-> "any", n |-> <<>>], [k |-> "deep", n |-> <<>>] }
Pats == {p \in UNION {[1..m -> StepSet] : m \in 1..MaxPat} : p[Len(p)].k # "deep" /\ \A m \in 1..(Len(p) - 1) : ~(p[m].k = "deep" /\ p[m+1].k = "deep")}

VARIABLES pat, evs, snd, nfa, nodes

Path == snd.path
Init == pat \in Pats /\ evs = <<>> /\ snd = SInit /\ nfa = <<NInit(pat)>> /\ nodes = 0

Take(e) == evs' = Append(evs, e) /\ snd' = SStep(pat, snd, e) /\ UNCHANGED pat
Open(n) ==
  /\ nodes < MaxNodes /\ Len(Path) < MaxDepth /\ (evs # <<>> => Path # <<>>)
  /\ Take(EvS(n, <<>>, Path)) /\ nodes' = nodes + 1
  /\ nfa' = Append(nfa, NStep(pat, Last(nfa), n))
Close ==
  /\ Path # <<>>
  /\ Take(EvE(Last(Path), Front(Path))) /\ UNCHANGED nodes
  /\ nfa' = Front(nfa)
  /\ (Len(Path) = 1) => PrintT("SC " \o ToJson([evs |-> [m \in 1..Len(evs') |-> [k |-> evs'[m].k, n |-> evs'[m].n]], pat |-> pat]))
Next == Open(NmA) \/ Open(NmB) \/ Close
Spec == Init /\ [][Next]_<<pat, evs, snd, nfa, nodes>>

\* The automaton accepts exactly the paths which match
InvNfa == evs # <<>> /\ Path # <<>> => (NAccept(pat, Last(nfa)) <=> Match(Path, pat))
\* Deliveries: exactly the complete elements which match and are in no other which matches; in document order; subtrees well formed
Opens == {m \in 1..Len(evs) : evs[m].k = "S"}
PathAt(m) == Append(evs[m].s, evs[m].n)
EndOf(m) == LET c == {j \in (m+1)..Len(evs) : evs[j].k = "E" /\ evs[j].s = evs[m].s} IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A l \in c : j <= l
InvExact ==
  LET should == {m \in Opens : Match(PathAt(m), pat) /\ EndOf(m) # 0
                               /\ \A a \in 1..(Len(PathAt(m)) - 1) : ~Match(SubSeq(PathAt(m), 1, a), pat)}
  IN /\ {snd.out[j].b : j \in 1..Len(snd.out)} = should
     /\ \A j \in 1..Len(snd.out) : snd.out[j].e = EndOf(snd.out[j].b)
     /\ \A j \in 1..(Len(snd.out) - 1) : snd.out[j].e < snd.out[j+1].b
InvTrees == \A j \in 1..Len(snd.out) : LET t == Delivered(evs, snd.out[j]) IN Consistent(t) /\ t[1].p = 0
=============================================================================
