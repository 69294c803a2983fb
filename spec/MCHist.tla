------------------------------- MODULE MCHist -------------------------------
(* All short histories of mutations and evaluations of two small trees.     *)
EXTENDS UXHist, TLC, Json
CONSTANTS MaxOps

A == <<97>>  Bn == <<98>>
\* <a><b/><b>x</b></a> and <b><a/></b>
Doc1 == <<60,97,62,60,98,62,60,47,98,62,60,98,62,120,60,47,98,62,60,47,97,62>>
Doc2 == <<60,98,62,60,97,62,60,47,97,62,60,47,98,62>>
Setup == <<[o |-> "parse", x |-> Doc1], [o |-> "parse", x |-> Doc2]>>
H0 == Apply(Apply(<<>>, Setup[1]).h, Setup[2]).h    \* 1 a  2 b  3 b  4 x    5 b  6 a

Muts == {[o |-> "app", p |-> 3, c |-> 5], [o |-> "app", p |-> 6, c |-> 1], [o |-> "rem", p |-> 1, c |-> 2], [o |-> "rem", p |-> 3, c |-> 5],
         [o |-> "rem", p |-> 3, c |-> 4], [o |-> "apps", p |-> 6, t |-> <<120>>], [o |-> "inss", p |-> 1, i |-> 0, t |-> <<120>>], [o |-> "seta", p |-> 3, a |-> <<A, <<49>>>>]}
Es == {E1("absd", StepE("child", "name", Bn)),
       E2("union", E1("absd", StepE("child", "node", <<>>)), Expr("par")),
       E2("path", StepE("ancestor-or-self", "node", <<>>), StepE("child", "any", <<>>)),
       E1("abs", StepE("child", "any", <<>>)),
       E2("dpath", E1("abs", StepE("child", "any", <<>>)), StepE("attribute", "any", <<>>))}
Lazy == {E2("union", E1("absd", StepE("child", "node", <<>>)), Expr("par")), E1("absd", StepE("child", "name", Bn))}
ECtx == {1, 3, 6}
EvalOps == {[o |-> "eval", c |-> c, e |-> e, ep |-> "plain", at |-> <<>>, vs |-> <<>>] : c \in ECtx, e \in Es}
           \cup {[o |-> "eval", c |-> 6, e |-> E2("path", Expr("self"), [Expr("var") EXCEPT !.t = A]), ep |-> "plain", at |-> <<>>, vs |-> <<>>]}
OpenOps(n) == {[o |-> "open", id |-> n, c |-> c, e |-> e, ep |-> "plain", at |-> <<>>, vs |-> <<>>] : c \in {1, 6}, e \in Lazy}

VARIABLES h, opens, hist
vars == <<h, opens, hist>>
Init == h = H0 /\ opens = <<>> /\ hist = Setup
Log(op) == hist' = Append(hist, op) /\ PrintT("SC " \o ToJson(hist'))
Mutate == \E op \in Muts : /\ LegalH(h, op)
                           /\ LET h2 == ApplyH(h, op).h IN h' = h2 /\ opens' = Mark(h, h2, opens)
                           /\ Log(op)
Eval == \E op \in EvalOps : Log(op) /\ UNCHANGED <<h, opens>>
Bad1 == Log([o |-> "bad", t |-> <<97, 91>>]) /\ UNCHANGED <<h, opens>>
Open == Len(opens) < 2 /\ \E op \in OpenOps(Len(opens) + 1) : opens' = Append(opens, Begin(h, op)) /\ Log(op) /\ UNCHANGED h
Pull == \E m \in 1..Len(opens), n \in {1, 50} :
          /\ ~opens[m].dead
          /\ LET r == ResultOf(h, opens[m], TRUE).s  k == Len(opens[m].got) IN
             opens' = [opens EXCEPT ![m].got = SubSeq(r, 1, IF k + n < Len(r) THEN k + n ELSE Len(r))]
          /\ Log([o |-> "pull", id |-> m, n |-> n]) /\ UNCHANGED h
Next == Len(hist) < MaxOps + Len(Setup) /\ (Mutate \/ Eval \/ Bad1 \/ Open \/ Pull)
Spec == Init /\ [][Next]_vars

InvConsistent == Consistent(h)
\* an evaluation in progress is not affected by what happens to other trees, and goes on as it would have
InvSame == \A m \in 1..Len(opens) : LET o == opens[m] IN
  ~o.dead => /\ \A alt \in BOOLEAN : ResultOf(h, o, alt) = ResultOf(o.h0, o, alt)
             /\ IsPrefix(o.got, ResultOf(h, o, TRUE).s)
=============================================================================
