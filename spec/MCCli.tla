-------------------------------- MODULE MCCli --------------------------------
(* Invocations of the command line tool: all combinations of sources and    *)
(* options from small sets.  Every one is printed.                          *)
EXTENDS UXCli, TLC, Json
CONSTANTS MaxSrcs

\* <a>x<b i="1">y</b><b i="2"><c></c><b>x</b></b>z</a>   <b i="1">x</b>   <c><a><b></b></a></c>
D1 == TreeOf(Run(<<60,97,62,120,60,98,32,105,61,34,49,34,62,121,60,47,98,62,60,98,32,105,61,34,50,34,62,60,99,62,60,47,99,62,60,98,62,120,60,47,98,62,60,47,98,62,122,60,47,97,62>>).evs)
D2 == TreeOf(Run(<<60,98,32,105,61,34,49,34,62,120,60,47,98,62>>).evs)
D3 == TreeOf(Run(<<60,99,62,60,97,62,60,98,62,60,47,98,62,60,47,97,62,60,47,99,62>>).evs)
Docs == {D1, D2, D3}

A == <<97>>   Bn == <<98>>   I == <<105>>
None == Expr("none")
Num(n) == Lit(F(n))
Exprs == {StepE("child", "name", Bn), StepE("child", "any", <<>>), [Expr("absd") EXCEPT !.a = <<StepE("child", "name", Bn)>>],
          [Expr("abs") EXCEPT !.a = <<StepE("child", "any", <<>>)>>], Expr("self"), Expr("par"), Expr("root"),
          StepE("attribute", "name", I), StepE("child", "text", <<>>), StepE("descendant-or-self", "node", <<>>),
          CallE("count", <<StepE("child", "node", <<>>)>>), CallE("name", <<>>),
          Cmp(<<61>>, StepE("attribute", "name", I), Num(1000)), SeqE(<<Lit(S(<<113>>)), Num(1500), StepE("child", "name", Bn)>>),
          E2("pred", [Expr("absd") EXCEPT !.a = <<StepE("child", "name", Bn)>>], StepE("attribute", "any", <<>>))}
Eachs == {None, Expr("self"), Expr("par"), StepE("attribute", "name", I), StepE("child", "node", <<>>), CallE("string", <<>>),
          E2("union", StepE("attribute", "any", <<>>), StepE("child", "any", <<>>)), Expr("root"), CallE("count", <<Expr("self")>>)}

VARIABLES c, step

Srcs == UNION {[1..n -> Docs] : n \in 1..MaxSrcs}
Base(s, p) == [srcs |-> s, cmd |-> "find", e |-> None, f |-> None, part |-> p, txt |-> <<>>, atts |-> <<>>]
Init == step = 0 /\ c = <<>>
Next ==
  /\ step = 0
  /\ step' = 1
  /\ \E s \in Srcs, p \in {<<>>, A, Bn} :
       \/ \E cmd \in {"expr", "match"}, e \in Exprs, f \in Eachs : c' = [Base(s, p) EXCEPT !.cmd = cmd, !.e = e, !.f = f]
       \/ \E t \in {<<120>>, <<122>>, <<113>>}, as \in {<<>>, <<I>>, <<<<106>>, I>>} : c' = [Base(s, p) EXCEPT !.txt = t, !.atts = as]
  /\ PrintT("SC " \o ToJson(c'))
Spec == Init /\ [][Next]_<<c, step>>

Out(x) == LET us == AllUnits(x) IN FoldLeft(LAMBDA s, h : s \o Items(h, Result(x, h, FALSE)), <<>>, us)
Eval == step = 1 /\ c.cmd # "find"
\* Sources one after the other
InvSources == (Eval /\ Len(c.srcs) = 2) => Out(c) = Out([c EXCEPT !.srcs = <<c.srcs[1]>>]) \o Out([c EXCEPT !.srcs = <<c.srcs[2]>>])
\* A partition which is all of the document makes no difference
InvPartition == (Eval /\ c.part = <<>>) => \A n \in 1..Len(c.srcs) : LET o == [c EXCEPT !.srcs = <<c.srcs[n]>>] IN Out(o) = Out([o EXCEPT !.part = c.srcs[n][1].n])
\* . for each item makes no difference
InvSelf == (Eval /\ c.f.o = "self") => Out(c) = Out([c EXCEPT !.f = None])
\* Matching . is all elements in document order, and expr is match at the root
InvMatch == (Eval /\ c.cmd = "match" /\ c.e.o = "self" /\ c.f.o = "none") =>
   Out(c) = FoldLeft(LAMBDA s, h : s \o [m \in 1..Len(ElemSeq(h)) |-> [h |-> h, x |-> Nd(ElemSeq(h)[m])]], <<>>, AllUnits(c))
\* Units of a partition are never within each other
InvUnits == step = 1 => \A n \in 1..Len(c.srcs) : c.part = <<>> \/ LET h == c.srcs[n]  s == Outermost(h, c.part) IN
   /\ \A k, m \in 1..Len(s) : s[k] \notin Ancestors(h, s[m])
   /\ \A j \in 1..Len(h) : (h[j].k = "E" /\ h[j].n = c.part) => \E m \in 1..Len(s) : s[m] = j \/ s[m] \in Ancestors(h, j)
=============================================================================
