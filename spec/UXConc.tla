------------------------------- MODULE UXConc -------------------------------
(* Work in progress at the same time.                                       *)
(*                                                                          *)
(* A task is a parser, builder, sender, writer or query which goes on step  *)
(* by step.  Steps of different tasks happen in any order, and within each  *)
(* other: a step begins and ends, and other steps may come in between (in a *)
(* handler or sink which is called in the step, or in other threads).       *)
(*                                                                          *)
(* A schedule is a sequence of [t |-> task, ph |-> "B" or "E"].  Each task  *)
(* has a state of its own, so what a step gives can only depend on the      *)
(* steps of the same task before.  For a task with a MicroXML text x cut at *)
(* positions cuts (the last is Len(x)), the state is that of the parser.    *)
EXTENDS UXPattern

Fed(task, n) == IF n = 0 THEN <<>> ELSE SubSeq(task.x, 1, task.cuts[n])
Piece(task, n) == SubSeq(task.x, IF n = 1 THEN 1 ELSE task.cuts[n - 1] + 1, task.cuts[n])

(* State: for each task [n |-> steps begun, on |-> whether in one, ps |->   *)
(* parser, out |-> number of events given in each step done]                *)
CInit(tasks) == [t \in 1..Len(tasks) |-> [n |-> 0, on |-> FALSE, ps |-> PInit(FALSE), out |-> <<>>]]

CanBegin(tasks, st, t) == ~st[t].on /\ st[t].n < Len(tasks[t].cuts)
CanEnd(tasks, st, t) == st[t].on
DoBegin(tasks, st, t) == [st EXCEPT ![t].n = @ + 1, ![t].on = TRUE]
DoEnd(tasks, st, t) ==
  LET ps == Feed(st[t].ps, Piece(tasks[t], st[t].n)) IN
  [st EXCEPT ![t].on = FALSE, ![t].ps = ps, ![t].out = Append(@, Len(ps.evs) - Len(st[t].ps.evs))]

(* Is the sequence a schedule, for tasks of so many steps, in which all are completed? *)
IsSchedule(sched, steps) ==
  LET r == FoldLeft(LAMBDA s, a :
             IF ~s.ok THEN s
             ELSE IF a.ph = "B" THEN [s EXCEPT !.ok = ~s.on[a.t] /\ s.n[a.t] < steps[a.t], !.on[a.t] = TRUE, !.n[a.t] = @ + 1]
             ELSE [s EXCEPT !.ok = s.on[a.t], !.on[a.t] = FALSE],
             [ok |-> TRUE, n |-> [t \in 1..Len(steps) |-> 0], on |-> [t \in 1..Len(steps) |-> FALSE]], sched)
  IN r.ok /\ \A t \in 1..Len(steps) : ~r.on[t] /\ r.n[t] = steps[t]

-----------------------------------------------------------------------------
(* What each kind of task gives in step k                                   *)

(* Events whose markup has been received at each cut *)
Counts(task) ==
  FoldLeft(LAMBDA a, k : LET s == Feed(a.st, Piece(task, k)) IN [st |-> s, cnt |-> Append(a.cnt, Len(s.evs))],
           [st |-> PInit(FALSE), cnt |-> <<0>>], [k \in 1..Len(task.cuts) |-> k])

PushOut(task, k) ==
  LET c == Counts(task) IN SubSeq(c.st.evs, c.cnt[k] + 1, c.cnt[k + 1])

(* Subtrees delivered in step k *)
SendOut(task, k) ==
  LET c == Counts(task)
      ds == SelectSeq(Deliveries(c.st.evs, task.pat), LAMBDA d : d.e > c.cnt[k] /\ d.e <= c.cnt[k + 1])
  IN [m \in 1..Len(ds) |-> Delivered(c.st.evs, ds[m])]
=============================================================================
