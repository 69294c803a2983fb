------------------------------- MODULE MCBuild ------------------------------
(* Tree builders, each with a state of its own which outlives a parse, used *)
(* for several documents in succession.  A parse which fails leaves the     *)
(* state of the builder as it was when it failed, a new parse starts afresh.*)
EXTENDS UXTree, TLC, Json
CONSTANTS NBuilders, MaxParses

\* <a>x<b>y</b>z</a>  <b></b>  <a><b>x</a>  <a>x  <a>x<b></b></a>y  <c d="1">&lt;x</c>  (nothing)
Docs == << <<60,97,62,120,60,98,62,121,60,47,98,62,122,60,47,97,62>>,
           <<60,98,62,60,47,98,62>>,
           <<60,97,62,60,98,62,120,60,47,97,62>>,
           <<60,97,62,120>>,
           <<60,97,62,120,60,98,62,60,47,98,62,60,47,97,62,121>>,
           <<60,99,32,100,61,34,49,34,62,38,108,116,59,120,60,47,99,62>>,
           <<>> >>

VARIABLES
  bs,       \* builders: [h, cur, root]
  active,   \* builder at work, 0 if none
  todo,     \* events still to come
  fails,    \* whether the parse at work fails after them
  results,  \* [d |-> document, r |-> tree] of parses which did not fail
  hist

Fresh == [h |-> <<>>, cur |-> 0, root |-> 0]
Init == bs = [b \in 1..NBuilders |-> Fresh] /\ active = 0 /\ todo = <<>> /\ fails = FALSE /\ results = <<>> /\ hist = <<>>

Begin(b, d) ==
  /\ active = 0 /\ Len(hist) < MaxParses
  /\ LET st == Run(Docs[d]) IN todo' = st.evs /\ fails' = (Outcome(st) = "err")
  /\ bs' = [bs EXCEPT ![b] = Fresh]
  /\ active' = b
  /\ hist' = Append(hist, [b |-> b, d |-> d])
  /\ UNCHANGED results
Event ==
  /\ active # 0 /\ todo # <<>>
  /\ bs' = [bs EXCEPT ![active] = BuildStep(@, Head(todo))]
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<active, fails, results, hist>>
End ==
  /\ active # 0 /\ todo = <<>>
  /\ results' = IF fails THEN results ELSE Append(results, [d |-> Last(hist).d, r |-> bs[active].h])
  /\ active' = 0
  /\ PrintT("SC " \o ToJson([k \in 1..Len(hist) |-> [b |-> hist[k].b, x |-> Docs[hist[k].d]]]))
  /\ UNCHANGED <<bs, todo, fails, hist>>
Next == (\E b \in 1..NBuilders, d \in 1..Len(Docs) : Begin(b, d)) \/ Event \/ End
Spec == Init /\ [][Next]_<<bs, active, todo, fails, results, hist>>

InvConsistent == \A b \in 1..NBuilders : Consistent(bs[b].h)
\* Each result is the tree of its own document, whatever was parsed before, and has the value its text amounts to.
InvResults ==
  \A k \in 1..Len(results) :
    LET evs == Run(Docs[results[k].d]).evs IN
    /\ results[k].r = TreeOf(evs)
    /\ evs # <<>> =>
         /\ TreeEvents(results[k].r, 1) = evs
         /\ ValueOf(results[k].r, 1) = FoldLeft(LAMBDA s, e : IF e.k = "T" THEN s \o e.t ELSE s, <<>>, evs)
\* While a document is read, the open element is where its next event belongs.
InvOpen == active # 0 /\ bs[active].cur # 0 => \E k \in 1..Len(bs[active].h) : k = bs[active].cur /\ bs[active].h[k].k = "E"
=============================================================================
