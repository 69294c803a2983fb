------------------------------- MODULE UXPath -------------------------------
(* MicroXPath.                                                              *)
(*                                                                          *)
(* h is a tree as in UXTree, root 1, indices in document order.             *)
(*                                                                          *)
(* Items are records with fields k, i, t, v:                                *)
(*   "N" element or text node i       "R" root node                         *)
(*   "A" attribute of element i, with name t and value v                    *)
(*   "S" string t       "B" boolean, i is 0 or 1                            *)
(*   "F" number: i thousandths, or t is <<1>> NaN, <<2>> or <<3>> infinity  *)
(*   "!" an error                                                           *)
(*                                                                          *)
(* Expressions are records with fields o, ax, nt, t, v, a:                  *)
(*   "step"  axis ax, node test nt ("name" t, "any", "text", "node")        *)
(*   "self" .   "par" ..   "root" /                                         *)
(*   "path" a1/a2   "dpath" a1//a2   "abs" /a1   "absd" //a1                *)
(*   "union" a1|a2  "cmp" a1 t a2  "and"  "or"  "neg" -a1                   *)
(*   "pred"  a1[a2][a3]...    "seq" (a1, ...)   "lit" v   "var" $t          *)
(*   "call"  t(a1, ...)       "dyn" the expression a1 as a string           *)
(*                                                                          *)
(* The value of an expression is a record                                   *)
(*   s  sequence of items; ends with "!" if evaluation fails at that point  *)
(*   e  whether some part which was evaluated fails                         *)
(*   u  whether no claim is made, because XPath and the documentation are   *)
(*      at odds, or do not say                                              *)
EXTENDS UXTree

Item(k, i, t, v) == [k |-> k, i |-> i, t |-> t, v |-> v]
Nd(i) == Item("N", i, <<>>, <<>>)
Rt == Item("R", 0, <<>>, <<>>)
At(h, i, m) == Item("A", i, h[i].a[m][1], h[i].a[m][2])
S(t) == Item("S", 0, t, <<>>)
F(n) == Item("F", n, <<>>, <<>>)
NaN == Item("F", 0, <<1>>, <<>>)
B(b) == Item("B", IF b THEN 1 ELSE 0, <<>>, <<>>)
ErrI == Item("!", 0, <<>>, <<>>)

IsNode(x) == x.k \in {"N", "A", "R"}

R(s) == [s |-> s, e |-> FALSE, u |-> FALSE]
Unclear == [s |-> <<>>, e |-> FALSE, u |-> TRUE]
Fail == [s |-> <<ErrI>>, e |-> TRUE, u |-> FALSE]
Bad(r) == r.s # <<>> /\ Last(r.s).k = "!"
Cat(x, y) == IF Bad(x) THEN x ELSE [s |-> x.s \o y.s, e |-> x.e \/ y.e, u |-> x.u \/ y.u]
FlatM(r, Op(_)) ==
  FoldLeft(LAMBDA acc, x : IF Bad(acc) THEN acc ELSE IF x.k = "!" THEN Cat(acc, Fail) ELSE Cat(acc, Op(x)),
           [r EXCEPT !.s = <<>>], r.s)
Nds(ids) == [m \in 1..Len(ids) |-> Nd(ids[m])]
Rev(s) == [m \in 1..Len(s) |-> s[Len(s) + 1 - m]]

-----------------------------------------------------------------------------
(* Axes *)
RECURSIVE Up(_, _)
Up(h, i) == IF h[i].p = 0 THEN <<Rt>> ELSE <<Nd(h[i].p)>> \o Up(h, h[i].p)   \* ancestors, nearest first

IsEl(h, x) == x.k = "N" /\ h[x.i].k = "E"
Upto(n) == [m \in 1..n |-> m]
SubLast(h, i) == LET s == SubtreeSeq(h, i) IN s[Len(s)]

Siblings(h, i) == IF h[i].p = 0 THEN <<i>> ELSE h[h[i].p].c
PosIn(s, x) == CHOOSE m \in 1..Len(s) : s[m] = x

(* Result has u if the axis is not defined for the item *)
Axis(h, x, ax) ==
  IF x.k \notin {"N", "A", "R"} THEN Unclear
  ELSE CASE ax = "self" -> R(<<x>>)
         [] ax = "child" -> R(IF x.k = "R" THEN <<Nd(1)>> ELSE IF x.k = "N" THEN Nds(h[x.i].c) ELSE <<>>)
         [] ax = "attribute" -> R(IF IsEl(h, x) THEN [m \in 1..Len(h[x.i].a) |-> At(h, x.i, m)] ELSE <<>>)
         [] ax = "parent" -> R(IF x.k = "R" THEN <<>> ELSE IF x.k = "A" THEN <<Nd(x.i)>> ELSE SubSeq(Up(h, x.i), 1, 1))
         [] ax = "ancestor" -> R(IF x.k = "R" THEN <<>> ELSE IF x.k = "A" THEN <<Nd(x.i)>> \o Up(h, x.i) ELSE Up(h, x.i))
         [] ax = "ancestor-or-self" -> R(<<x>> \o (IF x.k = "R" THEN <<>> ELSE IF x.k = "A" THEN <<Nd(x.i)>> \o Up(h, x.i) ELSE Up(h, x.i)))
         [] ax = "descendant" -> R(IF x.k = "R" THEN Nds(SubtreeSeq(h, 1)) ELSE IF x.k = "N" THEN Nds(Tail(SubtreeSeq(h, x.i))) ELSE <<>>)
         [] ax = "descendant-or-self" -> R(<<x>> \o (IF x.k = "R" THEN Nds(SubtreeSeq(h, 1)) ELSE IF x.k = "N" THEN Nds(Tail(SubtreeSeq(h, x.i))) ELSE <<>>))
         [] ax = "following" -> IF x.k = "A" THEN Unclear ELSE R(IF x.k = "R" THEN <<>> ELSE Nds(SelectSeq(Upto(Len(h)), LAMBDA j : j > SubLast(h, x.i))))
         [] ax = "preceding" -> IF x.k = "A" THEN Unclear
                                ELSE R(IF x.k = "R" THEN <<>> ELSE Nds(Rev(SelectSeq(Upto(x.i - 1), LAMBDA j : j \notin Ancestors(h, x.i)))))
         [] ax = "following-sibling" -> R(IF x.k # "N" THEN <<>> ELSE LET s == Siblings(h, x.i) IN Nds(SubSeq(s, PosIn(s, x.i) + 1, Len(s))))
         [] ax = "preceding-sibling" -> R(IF x.k # "N" THEN <<>> ELSE LET s == Siblings(h, x.i) IN Nds(Rev(SubSeq(s, 1, PosIn(s, x.i) - 1))))

TestOk(h, x, ax, nt, t) ==
  IF ax = "attribute" THEN nt = "any" \/ (nt = "name" /\ x.t = t)
  ELSE CASE nt = "name" -> IsEl(h, x) /\ h[x.i].n = t
         [] nt = "any" -> IsEl(h, x)
         [] nt = "text" -> x.k = "N" /\ h[x.i].k = "T"
         [] OTHER -> TRUE

AxStep(h, x, e) ==
  LET r == Axis(h, x, e.ax) IN
  IF e.ax = "attribute" /\ e.nt \notin {"name", "any"} THEN Unclear
  ELSE [r EXCEPT !.s = SelectSeq(@, LAMBDA y : TestOk(h, y, e.ax, e.nt, e.t))]

\* document order: root, then nodes, attributes of an element just after it
AttPos(h, x) == CHOOSE m \in 1..Len(h[x.i].a) : h[x.i].a[m][1] = x.t
OrdKey(h, x) == x.i * 1000 + IF x.k = "A" THEN AttPos(h, x) ELSE 0
RECURSIVE SortedKeys(_)
SortedKeys(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : \A n \in s : m <= n IN <<m>> \o SortedKeys(s \ {m})
InOrder(h, s) ==
  LET keys == {OrdKey(h, s[m]) : m \in 1..Len(s)}
      o == SortedKeys(keys)
  IN [m \in 1..Len(o) |-> s[CHOOSE n \in 1..Len(s) : OrdKey(h, s[n]) = o[m]]]

-----------------------------------------------------------------------------
(* Conversions: [x |-> result, u |-> whether unclear] *)
AbsN(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Frac(n) ==  \* thousandths, without trailing zeros
  IF n = 0 THEN <<>>
  ELSE <<46, 48 + (n \div 100)>> \o (IF n % 100 = 0 THEN <<>> ELSE <<48 + ((n \div 10) % 10)>> \o (IF n % 10 = 0 THEN <<>> ELSE <<48 + (n % 10)>>))
NumStr(x) ==
  IF x.t = <<1>> THEN <<78, 97, 78>>
  ELSE IF x.t = <<2>> THEN <<73,110,102,105,110,105,116,121>>
  ELSE IF x.t = <<3>> THEN <<45,73,110,102,105,110,105,116,121>>
  ELSE (IF x.i < 0 THEN <<45>> ELSE <<>>) \o Digits(AbsN(x.i) \div 1000) \o Frac(AbsN(x.i) % 1000)

StrVal(h, x) ==
  CASE x.k = "N" -> ValueOf(h, x.i)
    [] x.k = "A" -> x.v
    [] x.k = "S" -> x.t
    [] x.k = "F" -> NumStr(x)
    [] x.k = "B" -> IF x.i = 1 THEN <<116,114,117,101>> ELSE <<102,97,108,115,101>>
    [] OTHER -> <<>>
(* The root has no children among the nodes of the library, and no value *)
StrU(x) == x.k = "R"

IsDig(c) == c \in 48..57
RECURSIVE Strip(_)
Strip(t) == IF t # <<>> /\ IsWS(Head(t)) THEN Strip(Tail(t)) ELSE IF t # <<>> /\ IsWS(Last(t)) THEN Strip(Front(t)) ELSE t
DigVal(ds) == FoldLeft(LAMBDA n, c : n * 10 + (c - 48), 0, ds)
(* [x |-> number, u |-> outside what is modelled] *)
ParseNum(t0) ==
  LET t1 == Strip(t0)
      neg == t1 # <<>> /\ Head(t1) = 45
      t == IF neg THEN Tail(t1) ELSE t1
      dots == {m \in 1..Len(t) : t[m] = 46}
      ok == /\ \A m \in 1..Len(t) : IsDig(t[m]) \/ t[m] = 46
            /\ Cardinality(dots) <= 1
            /\ \E m \in 1..Len(t) : IsDig(t[m])
  IN IF ~ok THEN [x |-> NaN, u |-> FALSE]
     ELSE LET d == IF dots = {} THEN Len(t) + 1 ELSE CHOOSE m \in dots : TRUE
              ip == SubSeq(t, 1, d - 1)
              fp == SubSeq(t, d + 1, Len(t))
          IN IF Len(ip) > 6 \/ Len(fp) > 3 THEN [x |-> NaN, u |-> TRUE]
             ELSE LET f == CASE Len(fp) = 0 -> 0 [] Len(fp) = 1 -> 100 * DigVal(fp) [] Len(fp) = 2 -> 10 * DigVal(fp) [] OTHER -> DigVal(fp)
                      n == DigVal(ip) * 1000 + f
                  IN [x |-> F(IF neg THEN -n ELSE n), u |-> FALSE]
ToNum(h, x) ==
  CASE x.k = "F" -> [x |-> x, u |-> FALSE]
    [] x.k = "B" -> [x |-> F(1000 * x.i), u |-> FALSE]
    [] x.k = "R" -> [x |-> NaN, u |-> TRUE]
    [] OTHER -> ParseNum(StrVal(h, x))
BoolVal(x) ==
  CASE x.k = "S" -> x.t # <<>>
    [] x.k = "F" -> IF x.t = <<>> THEN x.i # 0 ELSE x.t # <<1>>
    [] x.k = "B" -> x.i = 1
    [] OTHER -> TRUE
EBV(s) == IF s = <<>> THEN FALSE ELSE BoolVal(s[1])

-----------------------------------------------------------------------------
(* Comparisons of items *)
Rank(x) == IF x.t = <<2>> THEN 2000000000 ELSE IF x.t = <<3>> THEN -2000000000 ELSE x.i
RelInt(op, a, b) ==
  CASE op = "=" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b [] op = ">" -> a > b [] op = "<=" -> a <= b [] OTHER -> a >= b
NumCmp(op, a, b) == IF a.t = <<1>> \/ b.t = <<1>> THEN op = "!=" ELSE RelInt(op, Rank(a), Rank(b))
RECURSIVE StrOrd(_, _)
StrOrd(a, b) ==
  IF a = b THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
  ELSE IF Head(a) < Head(b) THEN -1 ELSE IF Head(a) > Head(b) THEN 1 ELSE StrOrd(Tail(a), Tail(b))
StrCmp(op, a, b) == RelInt(op, StrOrd(a, b), 0)

CmpItems(h, op, a, b) ==
  LET na == ToNum(h, a)  nb == ToNum(h, b)
      num == NumCmp(op, na.x, nb.x)
      str == StrCmp(op, StrVal(h, a), StrVal(h, b))
      eq == op \in {"=", "!="}
      Bo(x) == IF IsNode(x) THEN StrVal(h, x) # <<>> ELSE BoolVal(x)
      boo == RelInt(op, IF Bo(a) THEN 1 ELSE 0, IF Bo(b) THEN 1 ELSE 0)
      \* a node is true as such, and by its value unless that is empty
      emptynode == (IsNode(a) /\ ~Bo(a)) \/ (IsNode(b) /\ ~Bo(b))
      root == a.k = "R" \/ b.k = "R"
  IN IF a.k = "B" \/ b.k = "B" THEN [r |-> boo, u |-> root \/ emptynode \/ (~eq /\ (boo # num \/ na.u \/ nb.u))]
     ELSE IF a.k = "F" \/ b.k = "F" THEN [r |-> num, u |-> root \/ na.u \/ nb.u]
     ELSE IF eq \/ (a.k = "S" /\ b.k = "S") THEN [r |-> str, u |-> root]
     ELSE [r |-> num, u |-> root \/ na.u \/ nb.u \/ num # str]

-----------------------------------------------------------------------------
(* Functions *)
Begins(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Finds(s, p) == {m \in 0..(Len(s) - Len(p)) : SubSeq(s, m + 1, m + Len(p)) = p}
First0(ms) == CHOOSE m \in ms : \A n \in ms : m <= n
\* numbers to integers: halves go up
Round(n) == (n + 500 + 1000000000) \div 1000 - 1000000
SubStr(s, a, b) ==
  IF a.t = <<1>> \/ b.t = <<1>> THEN <<>>
  ELSE LET from == IF a.t = <<2>> THEN 1000000 ELSE IF a.t = <<3>> THEN -1000000 ELSE Round(a.i)
           len == IF b.t = <<2>> THEN 2000000 ELSE IF b.t = <<3>> THEN -2000000 ELSE Round(b.i)
           \* minus infinity plus infinity is not a number
       IN IF a.t = <<3>> /\ b.t # <<>> THEN <<>>
          ELSE IF a.t = <<3>> THEN <<>>
          ELSE LET keep == SelectSeq(Upto(Len(s)), LAMBDA p : from <= p /\ p < from + len) IN [m \in 1..Len(keep) |-> s[keep[m]]]

NameOf(h, x) ==
  CASE x.k = "N" -> IF h[x.i].k = "E" THEN h[x.i].n ELSE <<35,116,101,120,116>>   \* "#text"
    [] x.k = "A" -> x.t
    [] OTHER -> <<>>

(* f(args): args are values; x is the context item *)
Str1(h, s) == IF s = <<>> THEN <<>> ELSE StrVal(h, s[1])
U1(s) == s # <<>> /\ StrU(s[1])
Num1(h, s) == IF s = <<>> THEN [x |-> NaN, u |-> FALSE] ELSE ToNum(h, s[1])

Call(h, f, args, x) ==
  LET n == Len(args)
      a == [m \in 1..n |-> args[m].s]
      anyE == \E m \in 1..n : args[m].e
      anyU == \E m \in 1..n : args[m].u
      \* evaluation of the first item of any of the arguments fails
      first == \E m \in 1..n : a[m] # <<>> /\ a[m][1].k = "!"
      whole == \E m \in 1..n : Bad(args[m])
      Res(y, u) == [s |-> <<y>>, e |-> anyE, u |-> anyU \/ u]
      fail == [Fail EXCEPT !.u = anyU]
      st(m) == Str1(h, a[m])
      one == IF n = 0 THEN <<x>> ELSE a[1]
  IN CASE f = "name" /\ n <= 1 -> IF first THEN fail ELSE Res(S(IF one = <<>> THEN <<>> ELSE NameOf(h, one[1])), FALSE)
       [] f = "count" /\ n = 1 -> IF whole THEN fail ELSE Res(F(1000 * Len(a[1])), FALSE)
       [] f = "string" /\ n <= 1 -> IF first THEN fail ELSE Res(S(Str1(h, one)), U1(one))
       [] f = "number" /\ n <= 1 -> IF first THEN fail ELSE Res(Num1(h, one).x, Num1(h, one).u)
       [] f = "boolean" /\ n = 1 -> IF first THEN fail ELSE Res(B(EBV(a[1])), FALSE)
       [] f = "not" /\ n = 1 -> IF first THEN fail ELSE Res(B(~EBV(a[1])), FALSE)
       [] f = "true" /\ n = 0 -> Res(B(TRUE), FALSE)
       [] f = "false" /\ n = 0 -> Res(B(FALSE), FALSE)
       [] f = "concat" -> IF whole THEN fail
                          ELSE Res(S(FoldLeft(LAMBDA s, m : s \o st(m), <<>>, Upto(n))), \E m \in 1..n : Len(a[m]) > 1 \/ U1(a[m]))
       [] f = "starts-with" /\ n = 2 -> IF first THEN fail ELSE Res(B(Begins(st(1), st(2))), U1(a[1]) \/ U1(a[2]))
       [] f = "contains" /\ n = 2 -> IF first THEN fail ELSE Res(B(Finds(st(1), st(2)) # {}), U1(a[1]) \/ U1(a[2]))
       [] f = "substring-before" /\ n = 2 ->
            IF first THEN fail
            ELSE LET ms == Finds(st(1), st(2)) IN Res(S(IF ms = {} THEN <<>> ELSE SubSeq(st(1), 1, First0(ms))), U1(a[1]) \/ U1(a[2]))
       [] f = "substring-after" /\ n = 2 ->
            IF first THEN fail
            ELSE LET ms == Finds(st(1), st(2)) IN
                 Res(S(IF ms = {} THEN <<>> ELSE SubSeq(st(1), First0(ms) + Len(st(2)) + 1, Len(st(1)))), U1(a[1]) \/ U1(a[2]))
       [] f = "substring" /\ n = 3 ->
            IF first THEN fail
            ELSE LET p == Num1(h, a[2])  q == Num1(h, a[3]) IN Res(S(SubStr(st(1), p.x, q.x)), p.u \/ q.u \/ U1(a[1]))
       [] f = "string-length" /\ n <= 1 -> IF first THEN fail ELSE Res(F(1000 * Len(Str1(h, one))), U1(one))
       [] OTHER -> fail

Known == {"name", "count", "string", "number", "boolean", "not", "true", "false", "concat", "starts-with", "contains",
          "substring-before", "substring-after", "substring", "string-length", "for-each"}

-----------------------------------------------------------------------------
(* Evaluation: of e with context item x and variables vs (<<name, item>>). *)
(* alt: whether a//b goes in document order through the descendants of a,  *)
(* or through the children of each of a and its descendants                 *)
VarOf(vs, n) == SelectSeq(vs, LAMBDA v : v[1] = n)
LoneNode(e) == e.o = "step" /\ e.ax = "child" /\ e.nt = "node"

Filter(r, Pv(_)) ==   \* Pv gives the value of the predicate for an item
  LET step(acc, x) ==
        IF Bad(acc.r) THEN acc
        ELSE IF x.k = "!" THEN [acc EXCEPT !.r = Cat(@, Fail)]
        ELSE LET p == Pv(x)
                 n == acc.n + 1
                 keep == IF p.s # <<>> /\ p.s[1].k = "F" THEN p.s[1].t = <<>> /\ p.s[1].i = 1000 * n ELSE EBV(p.s)
             IN IF p.s # <<>> /\ p.s[1].k = "!" THEN [acc EXCEPT !.r = Cat(@, p)]
                ELSE [n |-> n, r |-> Cat(acc.r, [s |-> IF keep THEN <<x>> ELSE <<>>, e |-> p.e, u |-> p.u])]
  IN FoldLeft(step, [n |-> 0, r |-> [r EXCEPT !.s = <<>>]], r.s).r

\* a//b/c: the first step on the right
RECURSIVE FirstStep(_), FirstDesc(_)
FirstStep(e) == IF e.o \in {"path", "dpath"} THEN FirstStep(e.a[1]) ELSE e
FirstDesc(e) == IF e.o \in {"path", "dpath"} THEN [e EXCEPT !.a[1] = FirstDesc(@)] ELSE [e EXCEPT !.ax = "descendant"]

RECURSIVE Ev(_, _, _, _, _)
Ev(h, e, x, vs, alt) ==
  CASE e.o = "step" -> AxStep(h, x, e)
    [] e.o = "self" -> R(<<x>>)
    [] e.o = "par" -> Axis(h, x, "parent")
    [] e.o = "root" -> IF IsNode(x) THEN R(<<Rt>>) ELSE Unclear
    [] e.o = "path" -> FlatM(Ev(h, e.a[1], x, vs, alt), LAMBDA y : Ev(h, e.a[2], y, vs, alt))
    [] e.o = "dpath" ->
         IF alt /\ FirstStep(e.a[2]).o = "step" /\ FirstStep(e.a[2]).ax = "child"
         THEN FlatM(Ev(h, e.a[1], x, vs, alt), LAMBDA y : Ev(h, FirstDesc(e.a[2]), y, vs, alt))
         ELSE FlatM(FlatM(Ev(h, e.a[1], x, vs, alt), LAMBDA y : Axis(h, y, "descendant-or-self")), LAMBDA y : Ev(h, e.a[2], y, vs, alt))
    [] e.o = "abs" -> IF ~IsNode(x) THEN Unclear
                      ELSE Cat(R(IF LoneNode(e.a[1]) THEN <<Rt>> ELSE <<>>), Ev(h, e.a[1], Rt, vs, alt))
    [] e.o = "absd" -> IF ~IsNode(x) THEN Unclear
                       ELSE Cat(R(IF LoneNode(e.a[1]) THEN <<Rt>> ELSE <<>>),
                                FlatM(R(<<Rt>> \o Nds(SubtreeSeq(h, 1))), LAMBDA y : Ev(h, e.a[1], y, vs, alt)))
    [] e.o = "union" ->
         LET r == Cat(Ev(h, e.a[1], x, vs, alt), Ev(h, e.a[2], x, vs, alt)) IN
         IF Bad(r) THEN [Fail EXCEPT !.u = r.u]
         ELSE IF \E m \in 1..Len(r.s) : ~IsNode(r.s[m]) THEN [Unclear EXCEPT !.e = r.e]
         ELSE [r EXCEPT !.s = InOrder(h, r.s)]
    [] e.o = "cmp" ->
         LET l == Ev(h, e.a[1], x, vs, alt)
             r == Ev(h, e.a[2], x, vs, alt)
             op == CASE e.t = <<61>> -> "=" [] e.t = <<33, 61>> -> "!=" [] e.t = <<60>> -> "<" [] e.t = <<62>> -> ">" [] e.t = <<60, 61>> -> "<=" [] OTHER -> ">="
             Pair(m, n) == CmpItems(h, op, l.s[m], r.s[n])
         IN IF Bad(l) \/ Bad(r) THEN IF Bad(l) /\ Bad(r) THEN [Fail EXCEPT !.u = l.u \/ r.u]
                                     \* may not be needed
                                     ELSE [s |-> <<>>, e |-> TRUE, u |-> Len(l.s) # 1 \/ Len(r.s) # 1 \/ l.u \/ r.u]
            ELSE LET ms == 1..Len(l.s)  ns == 1..Len(r.s) IN
                 [s |-> <<B(\E m \in ms : \E n \in ns : Pair(m, n).r)>>, e |-> l.e \/ r.e,
                  u |-> l.u \/ r.u \/ \E m \in ms : \E n \in ns : Pair(m, n).u]
    [] e.o \in {"and", "or"} ->
         LET l == Ev(h, e.a[1], x, vs, alt)
             r == Ev(h, e.a[2], x, vs, alt)
             u == l.u \/ r.u
         IN IF l.s # <<>> /\ l.s[1].k = "!" THEN [Fail EXCEPT !.u = u]
            ELSE IF EBV(l.s) = (e.o = "or") THEN [s |-> <<B(e.o = "or")>>, e |-> l.e \/ r.e, u |-> u]
            ELSE IF r.s # <<>> /\ r.s[1].k = "!" THEN [Fail EXCEPT !.u = u]
            ELSE [s |-> <<B(EBV(r.s))>>, e |-> l.e \/ r.e, u |-> u]
    [] e.o = "neg" ->
         LET r == Ev(h, e.a[1], x, vs, alt)
             n == Num1(h, r.s)
         IN IF r.s # <<>> /\ r.s[1].k = "!" THEN [Fail EXCEPT !.u = r.u]
            ELSE [s |-> <<IF n.x.t = <<>> THEN F(-n.x.i) ELSE IF n.x.t = <<1>> THEN NaN ELSE IF n.x.t = <<2>> THEN [n.x EXCEPT !.t = <<3>>] ELSE [n.x EXCEPT !.t = <<2>>]>>,
                  e |-> r.e, u |-> r.u \/ n.u]
    [] e.o = "pred" ->
         FoldLeft(LAMBDA r, p : Filter(r, LAMBDA y : Ev(h, p, y, vs, alt)), Ev(h, e.a[1], x, vs, alt), Tail(e.a))
    [] e.o = "seq" -> FoldLeft(LAMBDA acc, p : IF Bad(acc) THEN acc ELSE Cat(acc, Ev(h, p, x, vs, alt)), R(<<>>), e.a)
    [] e.o = "lit" -> R(<<e.v>>)
    [] e.o = "var" -> LET v == VarOf(vs, e.t) IN IF v = <<>> THEN Fail ELSE R(<<v[1][2]>>)
    [] e.o = "call" ->
         IF e.f = "for-each" THEN FlatM(Ev(h, e.a[1], x, vs, alt), LAMBDA y : Ev(h, e.a[2].a[1], y, vs, alt))
         ELSE IF e.f \notin Known THEN Fail
         ELSE Call(h, e.f, [m \in 1..Len(e.a) |-> Ev(h, e.a[m], x, vs, alt)], x)

-----------------------------------------------------------------------------
(* Recorded evaluations.  ep is the way in: with the element or text node i  *)
(* as the item (xml_xpath, qquery), with a document (string, bytes), with a  *)
(* context (forced to the root, or plain), or for attribute at of i (attr)   *)
\* the context item: the top of a tree stands for its root
Start(h, ev) ==
  CASE ev.ep \in {"xml_xpath", "qquery"} -> IF h[ev.i].p = 0 THEN Rt ELSE Nd(ev.i)
    [] ev.ep \in {"string", "bytes", "forced"} -> Rt
    [] ev.ep = "attr" -> At(h, ev.i, CHOOSE m \in 1..Len(h[ev.i].a) : h[ev.i].a[m][1] = ev.at)
    [] OTHER -> Nd(ev.i)

(* r and r2 are the values for both orders of //; complete: all results were taken *)
Agrees(r, r2, out, got, complete) ==
  IF out = "hang" THEN "hang"
  ELSE IF r.u \/ r2.u THEN "unclear"
  ELSE IF r.e THEN IF Bad(r) /\ complete /\ out # "err" THEN "no-error" ELSE "ok"
  ELSE IF out # "ok" THEN "failed"
  ELSE IF complete THEN IF got = r.s \/ got = r2.s THEN "ok"
                        ELSE IF Len(got) > Len(r.s) THEN "too-many" ELSE IF Len(got) < Len(r.s) THEN "missing" ELSE "different"
  ELSE IF IsPrefix(got, r.s) \/ IsPrefix(got, r2.s) THEN "ok" ELSE "different"

Expr(o) == [o |-> o, ax |-> "", nt |-> "", f |-> "", t |-> <<>>, v |-> ErrI, a |-> <<>>]
StepE(ax, nt, t) == [Expr("step") EXCEPT !.ax = ax, !.nt = nt, !.t = t]
Lit(v) == [Expr("lit") EXCEPT !.v = v]
CallE(f, a) == [Expr("call") EXCEPT !.f = f, !.a = a]
E2(o, a, b) == [Expr(o) EXCEPT !.a = <<a, b>>]
E1(o, a) == [Expr(o) EXCEPT !.a = <<a>>]
Cmp(op, a, b) == [Expr("cmp") EXCEPT !.t = op, !.a = <<a, b>>]
SeqE(a) == [Expr("seq") EXCEPT !.a = a]
Axes == {"self", "child", "attribute", "parent", "ancestor", "ancestor-or-self", "descendant", "descendant-or-self",
         "following", "preceding", "following-sibling", "preceding-sibling"}
=============================================================================
