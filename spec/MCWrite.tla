------------------------------- MODULE MCWrite ------------------------------
(* Explores writers and encoding: every properly nested sequence of calls   *)
(* (and every prefix of one) up to a length, with tricky text.  The output  *)
(* of the specification, when parsed, gives the events of the calls.        *)
EXTENDS UXWrite, TLC, Json
CONSTANTS MaxCalls, MaxChars, Alphabet

VARIABLES calls, names, txt, cfg

\* Configurations: plain; a default declaration; prefixed element a and attribute p
Cfgs == << [ns |-> <<>>, em |-> <<>>, am |-> <<>>],
           [ns |-> << <<<<>>, <<117>>>> >>, em |-> <<>>, am |-> <<>>],
           [ns |-> << <<<<120>>, <<117>>>>, <<<<>>, <<118, 38>>>> >>, em |-> << <<<<97>>, <<120>>>> >>, am |-> << <<<<112>>, <<120>>>> >>] >>

Strings == UNION {[1..k -> Alphabet] : k \in 0..MaxChars}

Call(c, n, a, t) == [c |-> c, n |-> n, a |-> a, t |-> t]
Init == calls = <<>> /\ names = <<>> /\ txt \in Strings /\ cfg \in 1..Len(Cfgs)
Attrs == { <<>>, << <<<<112>>, txt>> >>, << <<<<113>>, txt>>, <<<<112>>, <<>>>> >> }
Next ==
  /\ Len(calls) < MaxCalls
  /\ calls # <<>> => names # <<>>
  /\ UNCHANGED <<txt, cfg>>
  /\ \/ \E n \in {<<97>>, <<98>>}, a \in Attrs :
          \/ calls' = Append(calls, Call("S", n, a, <<>>)) /\ names' = Append(names, n)
          \/ cfg = 1 /\ calls' = Append(calls, Call("M", n, a, <<>>)) /\ names' = names
     \/ names # <<>> /\ calls' = Append(calls, Call("T", <<>>, <<>>, txt)) /\ UNCHANGED names
     \/ names # <<>> /\ calls' = Append(calls, Call("E", Last(names), <<>>, <<>>)) /\ names' = Front(names)
  /\ Len(names') <= MaxCalls - Len(calls')
  /\ (names' = <<>>) => PrintT("SC " \o ToJson([calls |-> calls', cfg |-> Cfgs[cfg]]))
Spec == Init /\ [][Next]_<<calls, names, txt, cfg>>

Whole == calls # <<>> /\ names = <<>>
InvProper == Whole <=> (calls # <<>> /\ Proper(calls))
InvReadBack ==
  Whole => LET st == RunX(Output(Cfgs[cfg], calls)) IN
           /\ Outcome(st) = "ok" /\ st.tags = {}
           /\ st.evs = CallEvents(Cfgs[cfg], calls)
\* Encoding the tree of the events gives the same events again, for the MicroXML parser as well.
InvEncode ==
  (Whole /\ cfg = 1) =>
     LET evs == CallEvents(Cfgs[1], calls)
         h == TreeOf(evs)
         st == Run(Encode(h, 1))
     IN /\ Outcome(st) = "ok" /\ st.evs = evs
        /\ CallEvents(Cfgs[1], TreeCalls(h, 1)) = evs
=============================================================================
