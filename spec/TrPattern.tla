----------------------------- MODULE TrPattern ------------------------------
(* Judges what senders delivered (P08).  A case is                          *)
(*   [x |-> document, kind |-> "ux", "html" or XML, pats |-> patterns, out, log |-> deliveries in the     *)
(*    order they came, [s |-> sink, now |-> tree, later |-> the same tree   *)
(*    when all was over, kept |-> whether the sink left it alone],          *)
(*    cuts |-> total length after each piece fed, counts |-> number of      *)
(*    deliveries by then]                                                   *)
EXTENDS UXPattern, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

(* Events complete after each piece *)
Scan(x) ==
  FoldLeft(LAMBDA a, c : LET s == Step(a.st, c) IN [st |-> s, cnt |-> Append(a.cnt, Len(s.evs))],
           [st |-> PInit(FALSE), cnt |-> <<0>>], x)

VSink(evs, ds, got, exact) ==
  IF Len(got) # Len(ds) THEN IF Len(got) < Len(ds) THEN "missing" ELSE "too-many"
  ELSE LET bad == {j \in 1..Len(ds) : ~SameTree(Delivered(evs, ds[j]), got[j].now, exact)}
           later == {j \in 1..Len(ds) : got[j].kept /\ got[j].later # got[j].now}
       IN IF bad # {} THEN
             LET j == CHOOSE j \in bad : TRUE IN
             IF got[j].now # <<>> /\ got[j].now[1].p # 0 THEN "has-parent" ELSE "other-subtree"
          ELSE IF later # {} THEN "changed-later" ELSE "ok"

(* For HTML, evs are the events of the tree of the whole document *)
Verdict(c) ==
  LET html == c.kind = "html"
      sc == IF html THEN [st |-> PInit(FALSE), cnt |-> <<0>>] ELSE Scan(c.x)
      st == sc.st
      evs == IF html THEN c.evs ELSE st.evs
  IN IF c.out = "hang" THEN "hang"
     ELSE IF ~html /\ (Outcome(st) = "any" \/ st.tags # {}) THEN "ok"
     ELSE LET ds == [s \in 1..Len(c.pats) |-> Deliveries(evs, c.pats[s])]
              got(s) == SelectSeq(c.log, LAMBDA d : d.s = s)
              vs == [s \in 1..Len(c.pats) |-> VSink(evs, ds[s], got(s), c.kind = "ux")]
              bad == SelectSeq(vs, LAMBDA v : v # "ok")
              \* number of the end event of delivery m of the log
              Nth(m) == Len(SelectSeq(SubSeq(c.log, 1, m), LAMBDA d : d.s = c.log[m].s))
              At(m) == ds[c.log[m].s][Nth(m)].e
              Due(len) == LET n == sc.cnt[len + 1] IN
                          FoldLeft(LAMBDA a, s : a + Len(SelectSeq(ds[s], LAMBDA d : d.e <= n)), 0, [s \in 1..Len(c.pats) |-> s])
          IN IF (html \/ Outcome(st) = "ok") /\ c.out = "err" THEN "failed"
             ELSE IF bad # <<>> THEN bad[1]
             ELSE IF \E m \in 1..(Len(c.log) - 1) : At(m) > At(m + 1) THEN "late"
             ELSE IF \E k \in 1..Len(c.counts) : c.counts[k] # Due(c.cuts[k]) THEN "not-prompt"
             ELSE "ok"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
