------------------------------- MODULE MCValue ------------------------------
(* Values: comparisons, logic, predicates, conversions and functions over   *)
(* items of all kinds, with the laws which they obey.                       *)
EXTENDS UXPath, TLC, Json
CONSTANTS Wide

Str(cs) == S(cs)
one == <<49>>
T1 == LET x == <<Elem(<<97>>, << <<<<105>>, one>> >>, 0)>> IN AddChild(Append(x, Elem(<<98>>, <<>>, 1)), 1, 2)
T2 == AddChild(Append(T1, Text(one, 2)), 2, 3)
Tree == AddChild(Append(T2, Text(<<97>>, 1)), 1, 4)    \* <a i="1"><b>1</b>a</a>

\* variables v1, v2, ...
Items == << S(<<>>), S(one), S(<<97>>), S(<<97, 98>>), S(<<32, 49, 46, 53, 10>>), S(<<45, 49>>), S(<<49, 120>>),
            F(0), F(1000), F(1500), F(-1000), F(2000), NaN, Item("F", 0, <<2>>, <<>>), Item("F", 0, <<3>>, <<>>),
            B(TRUE), B(FALSE), Nd(1), Nd(2), Nd(3), Nd(4), At(Tree, 1, 1), Rt >>
NV == Len(Items)
VName(n) == <<118>> \o Digits(n)
Vars == [n \in 1..NV |-> <<VName(n), Items[n]>>]
VarE(n) == [Expr("var") EXCEPT !.t = VName(n)]
V1 == {VarE(n) : n \in 1..NV}
VFew == {VarE(n) : n \in {1, 2, 3, 9, 10, 13, 16, 19}}
Nothing == SeqE(<<>>)
VSeq == {Nothing} \cup {SeqE(<<a, b>>) : a, b \in {VarE(2), VarE(9), VarE(3), VarE(19), VarE(16)}}
Ops == {<<61>>, <<33, 61>>, <<60>>, <<62>>, <<60, 61>>, <<62, 61>>}

Strings == {Lit(S(t)) : t \in {<<>>, <<97>>, <<97, 98>>, <<98, 97>>, <<97, 97, 98>>, <<97, 98, 97, 98>>}}
Numbers == {VarE(n) : n \in {8, 9, 10, 11, 12, 13, 14, 15}} \cup {Lit(F(n)) : n \in {500, 2500, 3000}}
Bools == {CallE("true", <<>>), CallE("false", <<>>), VarE(1), VarE(19), VarE(8), VarE(13), Nothing, CallE("nothing", <<>>)}
P(e, a) == [Expr("pred") EXCEPT !.a = <<e>> \o a]
Long == SeqE(<<VarE(9), VarE(2), VarE(17), VarE(12), VarE(9), VarE(20)>>)
Self == Expr("self")
Preds == {Lit(F(1000)), Lit(F(2000)), Lit(F(6000)), VarE(8), VarE(10), VarE(11), VarE(13), VarE(14), VarE(16), VarE(17), VarE(3), VarE(1), Nothing, Self,
          Cmp(<<61>>, Self, VarE(2)), Cmp(<<61>>, Self, VarE(9)), Cmp(<<33, 61>>, Self, VarE(2)), CallE("not", <<Self>>), CallE("string", <<>>), CallE("count", <<Self>>)}
Fun1 == {"name", "count", "string", "number", "boolean", "not", "string-length", "concat"}
Fun2 == {"concat", "starts-with", "contains", "substring-before", "substring-after"}

E == {Cmp(op, a, b) : op \in Ops, a \in V1 \cup VSeq, b \in IF Wide THEN V1 \cup VSeq ELSE V1}
  \cup {E2(o, a, b) : o \in {"and", "or"}, a, b \in Bools}
  \cup {CallE("not", <<E2(o, a, b)>>) : o \in {"and", "or"}, a, b \in Bools}
  \cup {E2("or", a, E2("and", b, c)) : a, b, c \in {CallE("true", <<>>), CallE("false", <<>>), Nothing}}
  \cup {E2("and", E2("or", a, b), c) : a, b, c \in {CallE("true", <<>>), CallE("false", <<>>), Nothing}}
  \cup {CallE(f, <<a>>) : f \in Fun1, a \in V1 \cup VSeq}
  \cup {E1("neg", a) : a \in V1 \cup VSeq}
  \cup {CallE(f, <<CallE(g, <<a>>)>>) : f, g \in {"string", "number", "boolean", "not"}, a \in V1}
  \cup {CallE(f, <<>>) : f \in {"name", "string", "number", "true", "false", "string-length", "nothing"}}
  \cup {CallE(f, <<a, b>>) : f \in Fun2, a, b \in Strings \cup VFew}
  \cup {CallE("substring", <<s, a, b>>) : s \in Strings \cup {VarE(20), VarE(5)}, a, b \in Numbers}
  \cup {P(Long, <<p>>) : p \in Preds} \cup {P(Long, <<p, q>>) : p, q \in Preds}
  \cup (IF Wide THEN {P(Long, <<p, q, r>>) : p, q, r \in Preds} ELSE {})
  \cup {SeqE(<<a, b>>) : a, b \in VFew \cup VSeq} \cup {SeqE(<<a, SeqE(<<b, a>>)>>) : a, b \in VFew}
  \cup {CallE("for-each", <<a, E1("dyn", b)>>) : a \in VSeq \cup {Long}, b \in {Self, CallE("string", <<Self>>), SeqE(<<Self, VarE(2)>>), Nothing, Cmp(<<61>>, Self, VarE(2)), P(Self, <<Lit(F(1000))>>)}}

VARIABLES e, done
Init == e \in E /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED e /\ PrintT("SC " \o ToJson([e |-> e]))
Spec == Init /\ [][Next]_<<e, done>>

Val(x) == Ev(Tree, x, Nd(1), Vars, FALSE)
Clear(r) == ~r.u /\ ~r.e
One(r) == r.s[1]
Is(x, y) == LET a == Val(x)  b == Val(y) IN Clear(a) /\ Clear(b) => a.s = b.s
StrOf(x) == One(Val(x)).t

Flip(op) == CASE op = <<60>> -> <<62>> [] op = <<62>> -> <<60>> [] op = <<60, 61>> -> <<62, 61>> [] op = <<62, 61>> -> <<60, 61>> [] OTHER -> op
InvFlip == e.o = "cmp" => Is(e, Cmp(Flip(e.t), e.a[2], e.a[1])) /\ (Val(e).u <=> Val(Cmp(Flip(e.t), e.a[2], e.a[1])).u)
Single(x) == LET r == Val(x) IN Len(r.s) = 1 /\ ~r.e /\ (r.s[1].k = "F" => r.s[1].t # <<1>>)
\* for two single items (other than NaN), one of = and !=, and if all are numbers one of <, = and >
NumItem(x) == Val(x).s[1].k = "F"
InvOne == e.o = "cmp" /\ Single(e.a[1]) /\ Single(e.a[2]) =>
  LET T(op) == Val(Cmp(op, e.a[1], e.a[2]))
      Yes(op) == One(T(op)).i = 1
  IN ~T(<<61>>).u =>
       /\ (Yes(<<61>>) # Yes(<<33, 61>>)) \/ ~Single(CallE("number", <<e.a[1]>>)) \/ ~Single(CallE("number", <<e.a[2]>>))
       /\ (NumItem(e.a[1]) /\ NumItem(e.a[2]) => Cardinality({op \in {<<60>>, <<61>>, <<62>>} : Yes(op)}) = 1)
\* a comparison with a sequence is that with any of its items
InvAny == e.o = "cmp" /\ e.a[1].o = "seq" /\ Len(e.a[1].a) = 2 => Is(e, E2("or", Cmp(e.t, e.a[1].a[1], e.a[2]), Cmp(e.t, e.a[1].a[2], e.a[2])))
InvNone == e.o = "cmp" /\ (e.a[1] = Nothing \/ e.a[2] = Nothing) => Val(e).s = <<B(FALSE)>>
InvLogic == e.o \in {"and", "or"} =>
  LET o2 == IF e.o = "and" THEN "or" ELSE "and" IN
  /\ Is(CallE("not", <<e>>), E2(o2, CallE("not", <<e.a[1]>>), CallE("not", <<e.a[2]>>)))
  /\ Is(e, E2(e.o, e.a[2], e.a[1]))
  /\ Is(e, CallE("boolean", <<e>>))
InvNot == e.o = "call" /\ e.f = "boolean" => Is(e, CallE("not", <<CallE("not", e.a)>>))
InvStrings == e.o = "call" /\ e.f = "contains" /\ Clear(Val(e)) =>
  LET s == e.a[1]  t == e.a[2]
      bef == CallE("substring-before", <<s, t>>)  aft == CallE("substring-after", <<s, t>>)
  IN IF One(Val(e)).i = 1
     THEN /\ Is(CallE("concat", <<bef, t, aft>>), CallE("string", <<s>>))
          /\ StrOf(CallE("string", <<t>>)) # <<>> => Is(CallE("contains", <<bef, t>>), CallE("false", <<>>))
     ELSE StrOf(bef) = <<>> /\ StrOf(aft) = <<>> /\ Is(CallE("starts-with", e.a), CallE("false", <<>>))
InvConcat == e.o = "call" /\ e.f = "concat" /\ Len(e.a) = 2 /\ Clear(Val(e)) =>
  /\ One(Val(CallE("string-length", <<e>>))).i = One(Val(CallE("string-length", <<e.a[1]>>))).i + One(Val(CallE("string-length", <<e.a[2]>>))).i
  /\ Is(CallE("starts-with", <<e, e.a[1]>>), CallE("true", <<>>))
InvSubstring == e.o = "call" /\ e.f = "substring" /\ Clear(Val(e)) =>
  /\ Is(CallE("contains", <<e.a[1], e>>), CallE("true", <<>>))
  /\ Is(CallE("substring", <<e.a[1], Lit(F(1000)), CallE("string-length", <<e.a[1]>>)>>), CallE("string", <<e.a[1]>>))
\* strings of numbers are read back
InvRead == e.o = "call" /\ e.f = "string" /\ Len(e.a) = 1 /\ Clear(Val(e)) /\ Len(Val(e.a[1]).s) = 1 /\ One(Val(e.a[1])).k = "F" /\ One(Val(e.a[1])).t = <<>> =>
  Is(CallE("number", <<e>>), e.a[1])
InvPred == e.o = "pred" =>
  LET first == P(e.a[1], <<e.a[2]>>)
      \* positions by themselves count what came before
      rest == SubSeq(e.a, 3, Len(e.a))
  IN /\ Is(e, IF rest = <<>> THEN P(e, <<CallE("true", <<>>)>>) ELSE P(first, rest))
     /\ LET r == Val(first)  base == Val(e.a[1])  inv == Val(P(e.a[1], <<CallE("not", <<CallE("boolean", <<e.a[2]>>)>>)>>)) IN
        Clear(r) => IF Val(e.a[2]).s # <<>> /\ e.a[2].o \in {"lit", "var"} /\ One(Val(e.a[2])).k = "F"
                    THEN Len(r.s) <= 1 /\ \A x \in ToSet(r.s) : x = base.s[One(Val(e.a[2])).i \div 1000]
                    ELSE \/ ~Clear(inv) \/ e.a[2].o \in {"self"} \/ (e.a[2].o = "call" /\ e.a[2].f = "count")
                         \/ Len(r.s) + Len(inv.s) = Len(base.s)
InvSeq == e.o = "seq" /\ Len(e.a) = 2 =>
  /\ One(Val(CallE("count", <<e>>))).i = One(Val(CallE("count", <<e.a[1]>>))).i + One(Val(CallE("count", <<e.a[2]>>))).i
  /\ (e.a[2].o = "seq" /\ Len(e.a[2].a) = 2 => Is(e, SeqE(<<SeqE(<<e.a[1], e.a[2].a[1]>>), e.a[2].a[2]>>)))
\* for-each concatenates
InvEach == e.o = "call" /\ e.f = "for-each" /\ e.a[1].o = "seq" /\ Len(e.a[1].a) = 2 =>
  Is(e, SeqE(<<CallE("for-each", <<e.a[1].a[1], e.a[2]>>), CallE("for-each", <<e.a[1].a[2], e.a[2]>>)>>))
InvOneItem == e.o \in {"cmp", "and", "or", "neg"} \/ (e.o = "call" /\ e.f # "for-each") => LET r == Val(e) IN Clear(r) => Len(r.s) = 1
=============================================================================
