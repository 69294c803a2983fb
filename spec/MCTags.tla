-------------------------------- MODULE MCTags --------------------------------
(* Documents, and what is nearly one: all documents of up to MaxLen tokens   *)
(* (parts of tags, text, references), and each of them after one edit:       *)
(* a token left out, put in, replaced, doubled, or swapped with the next.    *)
(* What follows an error is then what would make it a document for a parser  *)
(* which overlooks the error.                                                *)
EXTENDS UXParser, TLC, Json
CONSTANTS MaxLen, MaxDepth

SP == <<32>>
Grow == << <<60, 97>>, <<60, 47, 97>>, <<60, 98>>, <<60, 47, 98>>, SP, <<62>>, <<120>>, <<38, 108, 116, 59>>,
           <<32, 98, 61, 34, 49, 34>>, <<32, 99, 61, 39, 50, 39>> >>          \* <a  </a  <b  </b  sp  >  x  &lt;   b="1"   c='2'
More == << <<60>>, <<47>>, <<61>>, <<34>>, <<39>>, <<38>>, <<59>>, <<32, 98>>, <<98>>, <<61, 34, 49, 34>>, <<61, 49>>, <<34, 51, 34>>,
           <<98, 61, 34, 49, 34>>, <<32, 98, 32, 61, 32, 34, 49, 34>>, <<32, 49, 61, 34, 49, 34>>, <<38, 120, 59>>, <<38, 35, 54, 53, 59>>, <<38, 35, 120, 52, 49>>,
           <<38, 108, 116>>, <<32, 120>>, <<10>>, <<60, 49>>, <<60, 47>>, <<60, 32, 47, 97>>, <<33>>, <<60, 62>>, <<60, 47, 62>>, <<45>>, <<49>> >>
Tokens == Grow \o More

VARIABLES toks, st, edited

Flat(ts) == FoldLeft(LAMBDA a, t : a \o t, <<>>, ts)
Live(s) == s.mode \notin {"reject", "unspec"}
IsDoc == ~edited /\ st.mode = "post" /\ toks # <<>> /\ Last(toks) = <<62>>

Init == toks = <<>> /\ st = PInit(FALSE) /\ edited = FALSE

GrowBy(g) ==
  LET s == Feed(st, g) IN
  /\ ~edited /\ Len(toks) < MaxLen /\ st.mode # "post"
  /\ Live(s) /\ Len(s.stack) <= MaxDepth
  /\ ~(g = SP /\ toks # <<>> /\ Last(toks) = SP)
  /\ toks' = Append(toks, g) /\ st' = s /\ edited' = FALSE

Before(k) == SubSeq(toks, 1, k - 1)
After(k) == SubSeq(toks, k + 1, Len(toks))
Edits(k) ==
  {Before(k) \o After(k), Before(k) \o <<toks[k], toks[k]>> \o After(k)}
  \cup (IF k < Len(toks) THEN {Before(k) \o <<toks[k + 1], toks[k]>> \o After(k + 1)} ELSE {})
  \cup {Before(k) \o <<Tokens[j]>> \o After(k) : j \in 1..Len(Tokens)}
  \cup {Before(k) \o <<Tokens[j], toks[k]>> \o After(k) : j \in 1..Len(Tokens)}
  \cup (IF k = Len(toks) THEN {Append(toks, Tokens[j]) : j \in 1..Len(Tokens)} ELSE {})

Edit == /\ IsDoc
        /\ \E k \in 1..Len(toks) : \E e \in Edits(k) :
             /\ toks' = e /\ st' = Run(Flat(e)) /\ edited' = TRUE
             /\ PrintT("SC " \o ToJson([t |-> Flat(e)]))

Next == (\E j \in 1..Len(Grow) : GrowBy(Grow[j])) \/ Edit
Spec == Init /\ [][Next]_<<toks, st, edited>>

InvNested == Nested(st)
InvText == NoAdjacentText(st)
InvRoot == OneRoot(st)
InvState == st = Run(Flat(toks))
\* Names of open elements and events agree also for what was edited into another document
InvDoc == Outcome(st) = "ok" => OpenAfter(st.evs) = <<>>
=============================================================================
