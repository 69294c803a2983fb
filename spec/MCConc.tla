------------------------------- MODULE MCConc -------------------------------
(* All schedules of some tasks.  Whatever the schedule, each task is in the *)
(* state, and has given the results, that it would alone.  Every complete   *)
(* schedule is printed.                                                     *)
EXTENDS UXConc, TLC, Json
CONSTANTS Tasks, Steps, Within     \* Within: whether steps may happen within each other

\* <a>x<b>y</b></a>  <b><b></b>z</b>  <c k="&lt;">
Docs == << <<60,97,62,120,60,98,62,121,60,47,98,62,60,47,97,62>>,
           <<60,98,62,60,98,62,60,47,98,62,122,60,47,98,62>>,
           <<60,99,32,107,61,34,38,108,116,59,34,62,60,47,99,62>>,
           <<60,97,62,60,47,98,62>> >>
\* Cut as evenly as it comes, wherever that is
TASKS == [t \in 1..Tasks |->
  LET x == Docs[((t - 1) % Len(Docs)) + 1] IN [x |-> x, cuts |-> [k \in 1..Steps |-> (k * Len(x)) \div Steps]]]

VARIABLES st, sched
Init == st = CInit(TASKS) /\ sched = <<>>
Begin(t) == CanBegin(TASKS, st, t) /\ (Within \/ \A u \in 1..Tasks : ~st[u].on) /\ st' = DoBegin(TASKS, st, t) /\ sched' = Append(sched, [t |-> t, ph |-> "B"])
End(t) == CanEnd(TASKS, st, t) /\ st' = DoEnd(TASKS, st, t) /\ sched' = Append(sched, [t |-> t, ph |-> "E"])
Complete_(s) == \A t \in 1..Tasks : ~s[t].on /\ s[t].n = Steps
Next ==
  /\ \E t \in 1..Tasks : Begin(t) \/ End(t)
  /\ (Complete_(st') => PrintT("SC " \o ToJson([m \in 1..Len(sched') |-> <<sched'[m].t, sched'[m].ph>>])))
Spec == Init /\ [][Next]_<<st, sched>>

Done(t) == IF st[t].on THEN st[t].n - 1 ELSE st[t].n
InvAlone ==
  \A t \in 1..Tasks :
    /\ st[t].ps = Run(Fed(TASKS[t], Done(t)))
    /\ Len(st[t].out) = Done(t)
InvSchedule == Complete_(st) => IsSchedule(sched, [t \in 1..Tasks |-> Steps])
InvOut ==
  Complete_(st) => \A t \in 1..Tasks : LET all == FoldLeft(LAMBDA s, k : s \o PushOut(TASKS[t], k), <<>>, [k \in 1..Steps |-> k]) IN
    all = Run(TASKS[t].x).evs /\ \A k \in 1..Steps : st[t].out[k] = Len(PushOut(TASKS[t], k))
=============================================================================
