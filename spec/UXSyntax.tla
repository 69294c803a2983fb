------------------------------ MODULE UXSyntax ------------------------------
(* The texts of MicroXPath expressions: lexing and parsing.                 *)
(*                                                                          *)
(* Lex(s): the tokens of a text, by the longest match, [k |-> kind, t |->   *)
(* characters].  What is no token is one of kind "bad".                     *)
(* Parse(toks): [ok |-> whether it is an expression, e |-> the expression   *)
(* (as in UXPath), n |-> number of the first token which cannot follow      *)
(* those before it (Len(toks) + 1 if it is the end which is too early), u |->*)
(* whether no claim is made: XPath would not have it, or has it but         *)
(* MicroXPath does not say so].                                             *)
(* State of parsing: the number of the next token, and so all of it is in   *)
(* results [ok, e, n, u], where n is the next token.                        *)
EXTENDS UXPath


\* end (the position after the last) of the longest run from position p of characters of a class
InClass(cl, c) == CASE cl = "name" -> IsNameChar(c) [] cl = "digit" -> IsDig(c) [] cl = "blank" -> IsWS(c) [] cl = "not-quot" -> c # 34 [] OTHER -> c # 39
RECURSIVE RunOf(_, _, _)
RunOf(s, p, cl) == IF p <= Len(s) /\ InClass(cl, s[p]) THEN RunOf(s, p + 1, cl) ELSE p

At2(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
TokAt(s, p) ==      \* [k, t, n |-> the position after it]
  LET c == s[p]
      d == At2(s, p + 1)
      Tok(k, n) == [k |-> k, t |-> SubSeq(s, p, n - 1), n |-> n]
  IN CASE IsNameStart(c) -> Tok("name", RunOf(s, p, "name"))
       [] IsDig(c) -> LET n == RunOf(s, p, "digit") IN IF At2(s, n) = 46 THEN Tok("num", RunOf(s, n + 1, "digit")) ELSE Tok("num", n)
       [] c = 46 /\ IsDig(d) -> Tok("num", RunOf(s, p + 1, "digit"))
       [] c \in {34, 39} -> LET n == RunOf(s, p + 1, IF c = 34 THEN "not-quot" ELSE "not-apos") IN IF n > Len(s) THEN Tok("bad", n) ELSE [Tok("lit", n + 1) EXCEPT !.t = SubSeq(s, p + 1, n - 1)]
       [] c = 46 -> IF d = 46 THEN Tok("..", p + 2) ELSE Tok(".", p + 1)
       [] c = 47 -> IF d = 47 THEN Tok("//", p + 2) ELSE Tok("/", p + 1)
       [] c = 58 -> IF d = 58 THEN Tok("::", p + 2) ELSE Tok("bad", p + 1)
       [] c = 33 -> IF d = 61 THEN Tok("=", p + 2) ELSE Tok("bad", p + 1)
       [] c = 61 -> Tok("=", p + 1)
       [] c \in {60, 62} -> IF d = 61 THEN Tok("rel", p + 2) ELSE Tok("rel", p + 1)
       [] c = 64 -> Tok("@", p + 1)
       [] c = 40 -> Tok("(", p + 1)
       [] c = 41 -> Tok(")", p + 1)
       [] c = 91 -> Tok("[", p + 1)
       [] c = 93 -> Tok("]", p + 1)
       [] c = 124 -> Tok("|", p + 1)
       [] c = 43 -> Tok("+", p + 1)
       [] c = 45 -> Tok("-", p + 1)
       [] c = 42 -> Tok("*", p + 1)
       [] c = 44 -> Tok(",", p + 1)
       [] c = 36 -> Tok("$", p + 1)
       [] OTHER -> Tok("bad", p + 1)
RECURSIVE LexFrom(_, _)
LexFrom(s, p) ==
  LET b == RunOf(s, p, "blank") IN
  IF b > Len(s) THEN <<>> ELSE LET t == TokAt(s, b) IN <<[k |-> t.k, t |-> t.t]>> \o LexFrom(s, t.n)
Lex(s) == LexFrom(s, 1)

OrW == <<111, 114>>  AndW == <<97, 110, 100>>  DivW == <<100, 105, 118>>  ModW == <<109, 111, 100>>
TextW == <<116, 101, 120, 116>>  NodeW == <<110, 111, 100, 101>>

-----------------------------------------------------------------------------
(* Words which the specification of evaluation has as strings *)
FunNames == << <<"name", <<110,97,109,101>> >>, <<"count", <<99,111,117,110,116>> >>, <<"string", <<115,116,114,105,110,103>> >>,
  <<"number", <<110,117,109,98,101,114>> >>, <<"boolean", <<98,111,111,108,101,97,110>> >>, <<"not", <<110,111,116>> >>,
  <<"true", <<116,114,117,101>> >>, <<"false", <<102,97,108,115,101>> >>, <<"concat", <<99,111,110,99,97,116>> >>,
  <<"starts-with", <<115,116,97,114,116,115,45,119,105,116,104>> >>, <<"contains", <<99,111,110,116,97,105,110,115>> >>,
  <<"substring-before", <<115,117,98,115,116,114,105,110,103,45,98,101,102,111,114,101>> >>,
  <<"substring-after", <<115,117,98,115,116,114,105,110,103,45,97,102,116,101,114>> >>,
  <<"substring", <<115,117,98,115,116,114,105,110,103>> >>, <<"string-length", <<115,116,114,105,110,103,45,108,101,110,103,116,104>> >>,
  <<"for-each", <<102,111,114,45,101,97,99,104>> >> >>
AxisNames == << <<"self", <<115,101,108,102>> >>, <<"child", <<99,104,105,108,100>> >>, <<"attribute", <<97,116,116,114,105,98,117,116,101>> >>,
  <<"parent", <<112,97,114,101,110,116>> >>, <<"ancestor", <<97,110,99,101,115,116,111,114>> >>,
  <<"ancestor-or-self", <<97,110,99,101,115,116,111,114,45,111,114,45,115,101,108,102>> >>,
  <<"descendant", <<100,101,115,99,101,110,100,97,110,116>> >>,
  <<"descendant-or-self", <<100,101,115,99,101,110,100,97,110,116,45,111,114,45,115,101,108,102>> >>,
  <<"following", <<102,111,108,108,111,119,105,110,103>> >>, <<"preceding", <<112,114,101,99,101,100,105,110,103>> >>,
  <<"following-sibling", <<102,111,108,108,111,119,105,110,103,45,115,105,98,108,105,110,103>> >>,
  <<"preceding-sibling", <<112,114,101,99,101,100,105,110,103,45,115,105,98,108,105,110,103>> >> >>
Word(list, t) == LET m == {j \in 1..Len(list) : list[j][2] = t} IN IF m = {} THEN "" ELSE list[CHOOSE j \in m : TRUE][1]
Chars(list, w) == LET m == {j \in 1..Len(list) : list[j][1] = w} IN list[CHOOSE j \in m : TRUE][2]
\* functions of the library which are not specified
Others == { <<108,97,115,116>>, <<108,111,111,107,117,112>>, <<115,117,109>>, <<102,108,111,111,114>>, <<99,101,105,108,105,110,103>>, <<114,111,117,110,100>>,
  <<110,111,114,109,97,108,105,122,101,45,115,112,97,99,101>>, <<116,114,97,110,115,108,97,116,101>>, <<115,97,109,101,45,108,97,110,103>>,
  <<112,111,115,105,116,105,111,110>> }

NumLit(t) == LET r == ParseNum(t) IN [e |-> Lit(r.x), u |-> r.u]

-----------------------------------------------------------------------------
(* Parsing *)
Ok(e, n) == [ok |-> TRUE, e |-> e, n |-> n, u |-> FALSE]
No(n) == [ok |-> FALSE, e |-> Expr("none"), n |-> n, u |-> FALSE]
Perhaps(n) == [No(n) EXCEPT !.u = TRUE]
K(toks, n) == IF n <= Len(toks) THEN toks[n].k ELSE "end"
W(toks, n) == IF n <= Len(toks) /\ toks[n].k = "name" THEN toks[n].t ELSE <<>>
If(r, Then(_)) == IF r.ok THEN LET q == Then(r) IN [q EXCEPT !.u = @ \/ r.u] ELSE r
StepStart(toks, n) == K(toks, n) \in {"name", "*", "@", ".", ".."}
NodeType(toks, n) == W(toks, n) \in {TextW, NodeW} /\ K(toks, n + 1) = "("
Function(toks, n) == K(toks, n) = "name" /\ K(toks, n + 1) = "(" /\ ~NodeType(toks, n)

\* level of the binary operator at n, 0 if there is none
OpLevel(toks, n) ==
  CASE W(toks, n) = OrW -> 1 [] W(toks, n) = AndW -> 2 [] K(toks, n) = "=" -> 3 [] K(toks, n) = "rel" -> 4
    [] K(toks, n) \in {"+", "-"} -> 5 [] W(toks, n) \in {DivW, ModW} \/ K(toks, n) = "*" -> 6 [] K(toks, n) = "|" -> 8 [] OTHER -> 0

\* node tests after an axis
Test(toks, n, ax) ==
  CASE K(toks, n) = "*" -> Ok(StepE(ax, "any", <<>>), n + 1)
    [] NodeType(toks, n) -> IF K(toks, n + 2) = ")" THEN Ok(StepE(ax, IF W(toks, n) = TextW THEN "text" ELSE "node", <<>>), n + 3)
                            \* that there is nothing in the parentheses is not checked
                            ELSE IF n + 2 > Len(toks) THEN No(n + 2) ELSE Perhaps(n + 2)
    [] K(toks, n) = "name" -> IF K(toks, n + 1) = "(" THEN Perhaps(n + 1) ELSE Ok(StepE(ax, "name", toks[n].t), n + 1)
    [] OTHER -> No(n)
Step1(toks, n) ==
  CASE K(toks, n) = "." -> Ok(Expr("self"), n + 1)
    [] K(toks, n) = ".." -> Ok(Expr("par"), n + 1)
    [] K(toks, n) = "@" -> Test(toks, n + 1, "attribute")
    [] K(toks, n) = "name" /\ K(toks, n + 1) = "::" ->
         LET ax == Word(AxisNames, toks[n].t) IN IF ax = "" THEN No(n + 1) ELSE Test(toks, n + 2, ax)
    [] OTHER -> Test(toks, n, "child")
RECURSIVE RlpRest(_, _)
RlpRest(toks, r) ==
  IF ~r.ok \/ K(toks, r.n) \notin {"/", "//"} THEN r
  ELSE LET s == Step1(toks, r.n + 1) IN
       IF ~s.ok THEN s ELSE RlpRest(toks, Ok(E2(IF K(toks, r.n) = "/" THEN "path" ELSE "dpath", r.e, s.e), s.n))
Rlp(toks, n) == RlpRest(toks, Step1(toks, n))

RECURSIVE Level(_, _, _), LevelRest(_, _, _), Postfix(_, _), Primary(_, _), List(_, _, _), Parse(_)
\* operators of a level group to the left
Level(toks, n, l) ==
  IF l = 9 THEN Postfix(toks, Primary(toks, n))
  ELSE IF l = 7 THEN IF K(toks, n) = "-" THEN If(Level(toks, n + 1, 7), LAMBDA r : [r EXCEPT !.e = E1("neg", @)]) ELSE Level(toks, n, 8)
  ELSE LevelRest(toks, Level(toks, n, l + 1), l)
LevelRest(toks, r, l) ==
  IF ~r.ok \/ OpLevel(toks, r.n) # l THEN r
  ELSE IF l = 8 /\ K(toks, r.n + 1) = "-" THEN Perhaps(r.n + 1)
  ELSE If(Level(toks, r.n + 1, l + 1), LAMBDA s :
       LevelRest(toks, [s EXCEPT !.u = @ \/ r.u \/ l \in {5, 6},
         !.e = CASE l = 1 -> E2("or", r.e, @) [] l = 2 -> E2("and", r.e, @) [] l \in {3, 4} -> Cmp(toks[r.n].t, r.e, @)
                 [] l = 8 -> E2("union", r.e, @) [] OTHER -> [E2("arith", r.e, @) EXCEPT !.t = toks[r.n].t]], l))
\* what can follow anything: paths and predicates
Postfix(toks, r) ==
  IF ~r.ok \/ K(toks, r.n) \notin {"/", "//", "["} THEN r
  ELSE IF r.e.o = "root" THEN Perhaps(r.n)
  ELSE IF K(toks, r.n) = "[" THEN
       If(Level(toks, r.n + 1, 1), LAMBDA s :
          IF K(toks, s.n) # "]" THEN No(s.n)
          ELSE Postfix(toks, [s EXCEPT !.n = @ + 1, !.u = @ \/ r.u, !.e = IF r.e.o = "pred" THEN [r.e EXCEPT !.a = Append(@, s.e)] ELSE E2("pred", r.e, s.e)]))
  ELSE If(Rlp(toks, r.n + 1), LAMBDA s : Postfix(toks, [s EXCEPT !.u = @ \/ r.u, !.e = E2(IF K(toks, r.n) = "/" THEN "path" ELSE "dpath", r.e, @)]))
\* a, b, ...) with those before in acc; result has the list as its a
List(toks, n, acc) ==
  If(Level(toks, n, 1), LAMBDA r :
     IF K(toks, r.n) = "," THEN If(List(toks, r.n + 1, Append(acc, r.e)), LAMBDA s : [s EXCEPT !.u = @ \/ r.u])
     ELSE IF K(toks, r.n) = ")" THEN [r EXCEPT !.n = @ + 1, !.e = SeqE(Append(acc, r.e))]
     ELSE No(r.n))
Args(toks, n) == IF K(toks, n) = ")" THEN Ok(SeqE(<<>>), n + 1) ELSE List(toks, n, <<>>)
CallOf(t, a) ==
  LET f == Word(FunNames, t) IN
  IF f = "for-each" /\ Len(a) = 2 THEN
    IF a[2].o = "lit" /\ a[2].v.k = "S" THEN
      LET r == Parse(Lex(a[2].v.t)) IN
      IF r.ok THEN [ok |-> TRUE, n |-> 0, u |-> r.u, e |-> CallE(f, <<a[1], E1("dyn", r.e)>>)] ELSE [Ok(Expr("self"), 0) EXCEPT !.u = TRUE]
    ELSE [Ok(Expr("self"), 0) EXCEPT !.u = TRUE]
  ELSE IF f = "" \/ f = "for-each" THEN [Ok([CallE("nothing", a) EXCEPT !.t = t], 0) EXCEPT !.u = t \in Others] ELSE Ok(CallE(f, a), 0)
Primary(toks, n) ==
  LET k == K(toks, n) IN
  CASE k = "(" -> Args(toks, n + 1)
    [] k = "lit" -> Ok(Lit(S(toks[n].t)), n + 1)
    [] k = "num" -> LET x == NumLit(toks[n].t) IN [Ok(x.e, n + 1) EXCEPT !.u = x.u]
    [] k = "$" -> IF K(toks, n + 1) = "name" THEN Ok([Expr("var") EXCEPT !.t = toks[n + 1].t], n + 2) ELSE No(n + 1)
    [] k = "/" -> IF StepStart(toks, n + 1) THEN If(Rlp(toks, n + 1), LAMBDA r : [r EXCEPT !.e = E1("abs", @)]) ELSE Ok(Expr("root"), n + 1)
    [] k = "//" -> If(Rlp(toks, n + 1), LAMBDA r : [r EXCEPT !.e = E1("absd", @)])
    [] Function(toks, n) -> If(Args(toks, n + 2), LAMBDA r : LET c == CallOf(toks[n].t, r.e.a) IN [c EXCEPT !.n = r.n])
    [] OTHER -> Rlp(toks, n)
Parse(toks) ==
  LET r == Level(toks, 1, 1) IN IF r.ok /\ r.n <= Len(toks) THEN [No(r.n) EXCEPT !.u = r.u] ELSE r

-----------------------------------------------------------------------------
(* The other way: tokens of an expression *)
Tk(k, t) == [k |-> k, t |-> t]
P1(k) == Tk(k, CASE k = "/" -> <<47>> [] k = "//" -> <<47, 47>> [] k = "(" -> <<40>> [] k = ")" -> <<41>> [] k = "[" -> <<91>> [] k = "]" -> <<93>>
                 [] k = "|" -> <<124>> [] k = "." -> <<46>> [] k = ".." -> <<46, 46>> [] k = "::" -> <<58, 58>> [] k = "@" -> <<64>> [] k = "," -> <<44>>
                 [] k = "$" -> <<36>> [] k = "-" -> <<45>> [] k = "+" -> <<43>> [] k = "*" -> <<42>> [] OTHER -> <<>>)
Nm(t) == Tk("name", t)
Own(e) == CASE e.o = "or" -> 1 [] e.o = "and" -> 2 [] e.o = "cmp" -> (IF 61 = e.t[1] \/ 33 = e.t[1] THEN 3 ELSE 4) [] e.o = "arith" -> (IF e.t \in {<<43>>, <<45>>} THEN 5 ELSE 6) [] e.o = "neg" -> 7 [] e.o = "union" -> 8 [] OTHER -> 9
RECURSIVE IsRlp(_)
IsRlp(e) == e.o \in {"step", "self", "par"} \/ (e.o \in {"path", "dpath"} /\ IsRlp(e.a[1]) /\ e.a[2].o \in {"step", "self", "par"})
RECURSIVE Show(_), Joined(_)
Wrap(e, l) == IF Own(e) >= l THEN Show(e) ELSE <<P1("(")>> \o Show(e) \o <<P1(")")>>
Joined(a) == IF a = <<>> THEN <<>> ELSE IF Len(a) = 1 THEN Show(a[1]) ELSE Show(a[1]) \o <<P1(",")>> \o Joined(Tail(a))
Show(e) ==
  CASE e.o = "step" -> (IF e.ax = "child" THEN <<>> ELSE IF e.ax = "attribute" THEN <<P1("@")>> ELSE <<Nm(Chars(AxisNames, e.ax)), P1("::")>>)
                       \o (CASE e.nt = "name" -> <<Nm(e.t)>> [] e.nt = "any" -> <<P1("*")>> [] e.nt = "text" -> <<Nm(TextW), P1("("), P1(")")>> [] OTHER -> <<Nm(NodeW), P1("("), P1(")")>>)
    [] e.o = "self" -> <<P1(".")>>
    [] e.o = "par" -> <<P1("..")>>
    [] e.o = "root" -> <<P1("/")>>
    [] e.o = "abs" -> <<P1("/")>> \o Show(e.a[1])
    [] e.o = "absd" -> <<P1("//")>> \o Show(e.a[1])
    [] e.o \in {"path", "dpath"} -> Wrap(e.a[1], 9) \o <<P1(IF e.o = "path" THEN "/" ELSE "//")>> \o Show(e.a[2])
    [] e.o = "pred" -> FoldLeft(LAMBDA acc, p : acc \o <<P1("[")>> \o Show(p) \o <<P1("]")>>, Wrap(e.a[1], 9), Tail(e.a))
    [] e.o = "union" -> Wrap(e.a[1], 8) \o <<P1("|")>> \o Wrap(e.a[2], 9)
    [] e.o = "neg" -> <<P1("-")>> \o Wrap(e.a[1], 7)
    [] e.o = "cmp" -> Wrap(e.a[1], Own(e)) \o <<Tk(IF Own(e) = 3 THEN "=" ELSE "rel", e.t)>> \o Wrap(e.a[2], Own(e) + 1)
    [] e.o = "arith" -> Wrap(e.a[1], Own(e)) \o <<Tk(CASE e.t = <<43>> -> "+" [] e.t = <<45>> -> "-" [] e.t = <<42>> -> "*" [] OTHER -> "name", e.t)>> \o Wrap(e.a[2], Own(e) + 1)
    [] e.o = "and" -> Wrap(e.a[1], 2) \o <<Nm(AndW)>> \o Wrap(e.a[2], 3)
    [] e.o = "or" -> Wrap(e.a[1], 1) \o <<Nm(OrW)>> \o Wrap(e.a[2], 2)
    [] e.o = "seq" -> <<P1("(")>> \o Joined(e.a) \o <<P1(")")>>
    [] e.o = "lit" -> IF e.v.k = "S" THEN <<Tk("lit", e.v.t)>> ELSE <<Tk("num", NumStr(e.v))>>
    [] e.o = "var" -> <<P1("$"), Nm(e.t)>>
    [] e.o = "call" -> <<Nm(IF e.f = "nothing" THEN e.t ELSE Chars(FunNames, e.f)), P1("(")>> \o Joined(e.a) \o <<P1(")")>>

\* The expression without more parentheses than it needs
RECURSIVE Plain(_)
Plain(e) ==
  LET a == [m \in 1..Len(e.a) |-> Plain(e.a[m])] IN
  IF e.o = "seq" /\ Len(a) = 1 THEN a[1] ELSE [e EXCEPT !.a = a]
=============================================================================
