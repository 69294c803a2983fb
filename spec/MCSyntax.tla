------------------------------ MODULE MCSyntax ------------------------------
(* All sequences of tokens which can still become an expression, with every *)
(* token which may come next.  Every sequence is printed.                   *)
EXTENDS UXSyntax, TLC, Json
CONSTANTS MaxLen, Wide

A == <<97>>
Few == { Nm(A), Nm(OrW), Nm(TextW), P1("*"), P1("."), P1("@"), P1("("), P1(")"), P1("["), P1("]"), P1("/"), P1("//"), P1("|"),
         Tk("=", <<61>>), P1("-"), P1("$"), P1(","), Tk("lit", A), Tk("num", <<49>>), P1("::"), Nm(Chars(AxisNames, "self")), Nm(Chars(FunNames, "count")) }
Many == Few \cup { Nm(AndW), Nm(DivW), P1(".."), Tk("rel", <<60>>), Tk("rel", <<62, 61>>), P1("+"), Tk("num", <<46, 53>>), Tk("bad", <<33>>), Nm(Chars(FunNames, "concat")),
         Nm(Chars(AxisNames, "attribute")), Nm(Chars(AxisNames, "ancestor-or-self")), Tk("lit", <<>>) }
Tokens == IF Wide THEN Many ELSE Few

VARIABLE toks
Res == Parse(toks)
\* it can go on
Viable == toks = <<>> \/ (~Res.u /\ (Res.ok \/ Res.n > Len(toks)))
Init == toks = <<>>
Next == /\ Len(toks) < MaxLen /\ Viable
        /\ \E t \in Tokens : toks' = Append(toks, t)
        /\ PrintT("SC " \o ToJson([ok |-> Parse(toks').ok, x |-> [m \in 1..Len(toks') |-> IF toks'[m].k = "lit" THEN <<34>> \o toks'[m].t \o <<34>> ELSE toks'[m].t]]))
Spec == Init /\ [][Next]_toks

Clean == Res.ok /\ ~Res.u
\* text of tokens, apart from each other
Spaced == FoldLeft(LAMBDA s, t : s \o (IF t.k = "lit" THEN <<34>> \o t.t \o <<34>> ELSE t.t) \o <<32>>, <<>>, toks)
NoBad == \A m \in 1..Len(toks) : toks[m].k # "bad"
InvLex == NoBad => Lex(Spaced) = toks
\* the expression determines the text, but for more parentheses
InvShow == Res.ok => LET r == Parse(Show(Res.e)) IN r.ok /\ Plain(r.e) = Plain(Res.e)
\* parentheses make a sequence of it, and nothing else
InvParens == Clean => LET r == Parse(<<P1("(")>> \o toks \o <<P1(")")>>) IN r.ok /\ r.e = SeqE(<<Res.e>>)
InvPred == Clean => LET r == Parse(<<Nm(A), P1("[")>> \o toks \o <<P1("]")>>) IN r.ok /\ r.e = E2("pred", StepE("child", "name", A), Res.e)
InvArgs == Clean => LET r == Parse(<<Nm(Chars(FunNames, "count")), P1("(")>> \o toks \o <<P1(","), P1("."), P1(")")>>) IN r.ok /\ r.e = CallE("count", <<Res.e, Expr("self")>>)
\* what cannot go on does not
InvDead == ~Viable => LET r == Parse(Append(toks, P1(")"))) IN ~r.ok \/ r.u
\* an operand of or is the same by itself
InvOr == Clean => LET r == Parse(toks \o <<Nm(OrW), Nm(A)>>) IN r.ok /\ ~r.u => r.e = E2("or", Res.e, StepE("child", "name", A)) \/ toks[Len(toks)].k = "/"
InvN == Res.n \in 1..(Len(toks) + 1)
=============================================================================
