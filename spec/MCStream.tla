------------------------------ MODULE MCStream ------------------------------
(* A sender with two sinks, of which each holds some node of what it gets   *)
(* or none, and lets go of it some time later.                              *)
EXTENDS UXStream, TLC, Json
CONSTANTS MaxNodes, MaxDepth

NmA == <<97>>  NmB == <<98>>
Nm(n) == [k |-> "name", n |-> <<n>>]
\* ('*', 'a') and ('*', '*')
PATS == << << [k |-> "any", n |-> <<>>], Nm(NmA) >>, << [k |-> "any", n |-> <<>>], [k |-> "any", n |-> <<>>] >> >>

VARIABLES evs, snd, ds, nodes, acts

Path == snd[1].path
Init == evs = <<>> /\ snd = [s \in 1..2 |-> SInit] /\ ds = <<>> /\ nodes = 0 /\ acts = <<>>

Open(n) ==
  /\ nodes < MaxNodes /\ Len(Path) < MaxDepth /\ (evs # <<>> => Path # <<>>)
  /\ evs' = Append(evs, EvS(n, <<>>, Path)) /\ snd' = [s \in 1..2 |-> SStep(PATS[s], snd[s], Last(evs'))]
  /\ nodes' = nodes + 1 /\ UNCHANGED <<ds, acts>>
Came(s, s2) == Len(s2.out) > Len(s.out)
Close ==
  /\ Path # <<>>
  /\ evs' = Append(evs, EvE(Last(Path), Front(Path))) /\ snd' = [s \in 1..2 |-> SStep(PATS[s], snd[s], Last(evs'))]
  /\ UNCHANGED nodes
  /\ LET who == SelectSeq(<<1, 2>>, LAMBDA s : Came(snd[s], snd'[s]))
         T(s) == Delivered(evs', Last(snd'[s].out))
     IN \E hold \in [1..Len(who) -> 0..2] :
          /\ \A m \in 1..Len(who) : hold[m] <= Len(T(who[m]))
          /\ ds' = FoldLeft(LAMBDA d, m : Arrive(d, who[m], T(who[m]), IF hold[m] = 0 THEN {} ELSE {hold[m]}), ds, [m \in 1..Len(who) |-> m])
          /\ acts' = acts \o [m \in 1..Len(who) |-> [a |-> "hold", n |-> hold[m]]]
  /\ (Len(Path) = 1) => PrintT("SC " \o ToJson([evs |-> [m \in 1..Len(evs') |-> [k |-> evs'[m].k, n |-> evs'[m].n]], acts |-> acts']))
Drop ==
  /\ Path # <<>>
  /\ \E j \in 1..Len(ds) : ds[j].held # {} /\ ds' = LetGo(ds, j) /\ acts' = Append(acts, [a |-> "drop", n |-> j])
  /\ UNCHANGED <<evs, snd, nodes>>
Next == Open(NmA) \/ Open(NmB) \/ Close \/ Drop
Spec == Init /\ [][Next]_<<evs, snd, ds, nodes, acts>>

\* What is held is there with all below it, and nothing above it; what is in use beyond that does not grow with the document.
InvHeld == \A j \in 1..Len(ds) :
  /\ ds[j].held \subseteq MustLive(ds[j])
  /\ \A i \in MustLive(ds[j]) : ToSet(ds[j].h[i].c) \subseteq MustLive(ds[j])
  /\ Consistent(Bury(ds[j].h, MustLive(ds[j])))
  /\ MustBeGone(ds, j) \cap MustLive(ds[j]) = {}
InvBound == Cardinality({j \in 1..Len(ds) : Slack(ds, j)}) <= 2
=============================================================================
