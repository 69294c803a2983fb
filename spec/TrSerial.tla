------------------------------ MODULE TrSerial ------------------------------
(* Judges texts made of parsed expressions (P22).  A case is a sequence of  *)
(* [x |-> text, p |-> outcome of parsing it, s |-> sequence of [out |->      *)
(* outcome of serializing what was parsed, y |-> text]], before and after it *)
(* was evaluated.                                                            *)
EXTENDS UXSyntax, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

\* Numbers, digit by digit: those before and after the point, without zeros which do not matter
RECURSIVE NoLead(_), NoTrail(_)
NoLead(t) == IF t # <<>> /\ Head(t) = 48 THEN NoLead(Tail(t)) ELSE t
NoTrail(t) == IF t # <<>> /\ Last(t) = 48 THEN NoTrail(Front(t)) ELSE t
Decimals(t) ==
  LET d == {m \in 1..Len(t) : t[m] = 46}
      p == IF d = {} THEN Len(t) + 1 ELSE CHOOSE m \in d : TRUE
  IN <<NoLead(SubSeq(t, 1, p - 1)), IF d = {} THEN <<>> ELSE NoTrail(SubSeq(t, p + 1, Len(t)))>>
Numbers(toks) == LET s == SelectSeq(toks, LAMBDA t : t.k = "num") IN [k \in 1..Len(s) |-> Decimals(s[k].t)]
\* with a number which is more precise than floating point is
Odd(toks) == \E k \in 1..Len(toks) : LET d == Decimals(toks[k].t) IN toks[k].k = "num" /\ Len(NoLead(d[1] \o d[2])) > 15
VText(x) ==
  LET toks == Lex(x.x)
      r == Parse(toks)
      Same(s) ==
        IF s.out # "ok" THEN s.out
        ELSE LET r2 == Parse(Lex(s.y)) IN
             IF ~r2.ok THEN "senseless"
             ELSE IF ~Odd(toks) /\ (Plain(r2.e) # Plain(r.e) \/ Numbers(Lex(s.y)) # Numbers(toks)) THEN "different" ELSE "ok"
      vds == [k \in 1..Len(x.s) |-> Same(x.s[k])]
      bad == {k \in 1..Len(vds) : vds[k] # "ok"}
  IN IF x.p # "ok" \/ ~r.ok THEN "unclear" ELSE IF bad # {} THEN vds[CHOOSE k \in bad : \A j \in bad : k <= j] ELSE "ok"

Verdict(c) ==
  LET vds == [k \in 1..Len(c.xs) |-> VText(c.xs[k])]
      bad == {k \in 1..Len(vds) : vds[k] \notin {"ok", "unclear"}}
  IN IF bad # {} THEN LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN vds[k] \o "#" \o ToString(k)
     ELSE IF 2 * Cardinality({k \in 1..Len(vds) : vds[k] = "unclear"}) > Len(vds) THEN "ok:unclear" ELSE "ok"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
