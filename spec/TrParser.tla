------------------------------ MODULE TrParser ------------------------------
(* Judges recorded runs of the real parser against the specification.       *)
(*                                                                          *)
(* A case is [x |-> text, runs |-> <<run, ...>>, ends |-> <<end, ...>>].    *)
(* A run is an incremental parse: [cuts |-> total length after each         *)
(* fragment, counts |-> events delivered by then, out |-> how it ended      *)
(* ("ok", "err", "hang"), evs |-> the events].  The last fragment(s) may be *)
(* missing from counts if the parse failed.  The first run is of the whole  *)
(* text at once.  An end is [ep |-> entry point, out |-> ..., evs |-> ...,  *)
(* full |-> whether it delivers events even if it fails].                   *)
(*                                                                          *)
(* PROP is the property to judge ("P01", "P02" or "P03").  A verdict is     *)
(* "ok", "known:..." (a known deviation) or the name of what is violated.   *)
EXTENDS UXParser, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
PROP == IOEnv.PROP

VARIABLES i, done

\* Number of events after each prefix of x (of length 0, 1, ..)
Scan(x) ==
  FoldLeft(LAMBDA a, c : LET s == Step(a.st, c) IN [st |-> s, cnt |-> Append(a.cnt, Len(s.evs))],
           [st |-> PInit(FALSE), cnt |-> <<0>>], x)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Free(st) == Outcome(st) = "any" \/ "cr" \in st.tags
Lenient(st) == "ltspace" \in st.tags

First(clauses) ==   \* the first violated clause
  LET bad == SelectSeq(clauses, LAMBDA c : ~c[2]) IN IF bad = <<>> THEN "ok" ELSE bad[1][1]

\* P01: every cut gives what the whole text gives, and events come promptly
V01(c) ==
  LET sc == Scan(c.x)
      w == c.runs[1]
      Cut(r) == First(<<
        <<"hang", r.out # "hang">>,
        <<"outcome-depends-on-cuts", r.out = w.out>>,
        <<"events-depend-on-cuts", r.evs = w.evs>>,
        <<"not-prompt", Free(sc.st) \/ (Lenient(sc.st) /\ w.out = "err")
                        \/ \A k \in 1..Len(r.counts) : r.counts[k] = sc.cnt[r.cuts[k] + 1]>> >>)
      vs == SelectSeq([k \in 1..Len(c.runs) |-> Cut(c.runs[k])], LAMBDA v : v # "ok")
      es == SelectSeq(c.ends, LAMBDA e : e.frag /\ (e.out # w.out \/ (e.full /\ e.evs # w.evs)))
  IN IF vs # <<>> THEN vs[1] ELSE IF es # <<>> THEN "outcome-depends-on-cuts:" \o es[1].ep ELSE "ok"

\* P02: the events of a document are those of the specification
V02(c) ==
  LET st == Run(c.x) IN
  IF Outcome(st) # "ok" \/ st.tags # {} THEN "ok"
  ELSE LET Bad(e) == First(<< <<"rejected", e.out = "ok">>, <<"events", e.full => e.evs = st.evs>> >>)
           vs == SelectSeq([k \in 1..Len(c.runs) |-> First(<< <<"rejected", c.runs[k].out = "ok">>,
                                                     <<"events", c.runs[k].evs = st.evs>> >>)], LAMBDA v : v # "ok")
           es == SelectSeq(c.ends, LAMBDA e : Bad(e) # "ok")
       IN IF vs # <<>> THEN vs[1] ELSE IF es # <<>> THEN Bad(es[1]) \o ":" \o es[1].ep ELSE "ok"

\* P03: termination; errors are reported, and nothing from after an error is delivered
V03(c) ==
  LET st == Run(c.x)
      o == Outcome(st)
      Bad(e, evs) == First(<<
        <<"hang", e.out # "hang">>,
        <<"accepted", o = "err" /\ ~Free(st) => e.out = "err">>,
        <<"events-after-error", o = "err" /\ ~Free(st) => IsPrefixOf(evs, st.evs)>> >>)
      vs == SelectSeq([k \in 1..Len(c.runs) |-> Bad(c.runs[k], c.runs[k].evs)], LAMBDA v : v # "ok")
      es == SelectSeq(c.ends, LAMBDA e : Bad(e, e.evs) # "ok")
  IN IF vs # <<>> THEN vs[1]
     ELSE IF es # <<>> THEN Bad(es[1], es[1].evs) \o ":" \o es[1].ep
     ELSE IF o = "ok" /\ Lenient(st) /\ ~Free(st) /\ c.runs[1].out = "ok"
          THEN IF c.runs[1].evs = st.evs THEN "known:ltspace" ELSE "accepted-otherwise"
     ELSE "ok"

Verdict(c) == CASE PROP = "P01" -> V01(c) [] PROP = "P02" -> V02(c) [] PROP = "P03" -> V03(c)

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
