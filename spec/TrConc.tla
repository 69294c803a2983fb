------------------------------- MODULE TrConc -------------------------------
(* Judges work done at the same time (P18).  A case is [tasks, sched,       *)
(* trees]: a schedule of UXConc, and for each task                          *)
(*   [kind, steps, alone |-> what each step gave when nothing else went on, *)
(*    out |-> what each step gave in the schedule,                          *)
(*    x, cuts, pat |-> input for kinds push, frags and send,                *)
(*    docs |-> texts for kinds build (one read in each step), cfg, calls    *)
(*    for kind write]                                                       *)
(* What a step gives is [out |-> ok, err or hang, evs |-> events or trees,  *)
(* s |-> anything else, as text].                                           *)
EXTENDS UXConc, UXWrite, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

Plain(st) == Outcome(st) = "ok" /\ st.tags = {}

(* By the model of the task *)
ByModel(t) ==
  CASE t.kind \in {"push", "frags"} ->
         IF ~Plain(Run(t.x)) THEN "ok"
         ELSE IF \E k \in 1..t.steps : t.out[k].out # "ok" THEN "failed"
         ELSE IF t.kind = "push" THEN IF \A k \in 1..t.steps : t.out[k].evs = PushOut(t, k) THEN "ok" ELSE "events"
         ELSE IF FoldLeft(LAMBDA s, k : s \o t.out[k].evs, <<>>, [k \in 1..t.steps |-> k]) = Run(t.x).evs THEN "ok" ELSE "events"
    [] t.kind = "send" ->
         IF ~Plain(Run(t.x)) THEN "ok"
         ELSE IF \E k \in 1..t.steps : t.out[k].out # "ok" THEN "failed"
         ELSE IF \A k \in 1..t.steps :
                   LET want == SendOut(t, k) IN
                   Len(want) = Len(t.out[k].evs) /\ \A m \in 1..Len(want) : SameTree(want[m], t.out[k].evs[m], FALSE)
              THEN "ok" ELSE "deliveries"
    [] t.kind \in {"build", "buildu", "buildx"} ->
         IF \E k \in 1..t.steps : LET st == Run(t.docs[k]) IN
              Plain(st) /\ (t.out[k].out # "ok" \/ ~SameTree(TreeOf(st.evs), t.out[k].evs, t.kind # "buildx"))
         THEN "tree" ELSE "ok"
    [] t.kind = "write" ->
         IF \E k \in 1..t.steps : t.out[k].out # "ok" THEN "failed"
         ELSE LET st == RunX(t.out[t.steps].evs) IN
              IF Outcome(st) # "ok" \/ st.evs # CallEvents(t.cfg, t.calls) THEN "output" ELSE "ok"
    [] OTHER -> "ok"

VTask(t) ==
  IF \E k \in 1..Len(t.out) : t.out[k].out = "hang" THEN "hang"
  ELSE IF Len(t.out) # t.steps THEN "steps"
  ELSE IF t.out # t.alone THEN "not-as-alone"
  ELSE ByModel(t)

Verdict(c) ==
  IF ~IsSchedule(c.sched, [t \in 1..Len(c.tasks) |-> c.tasks[t].steps]) THEN "bad-case"
  ELSE LET vs == [t \in 1..Len(c.tasks) |-> IF VTask(c.tasks[t]) = "ok" THEN "ok" ELSE c.tasks[t].kind \o ":" \o VTask(c.tasks[t])]
           bad == SelectSeq(vs, LAMBDA v : v # "ok")
       IN IF bad = <<>> THEN "ok" ELSE bad[1]

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
