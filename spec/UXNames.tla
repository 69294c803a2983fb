------------------------------ MODULE UXNames -------------------------------
(* Namespaces of an XML document, as gathered while it is reduced.          *)
(*                                                                          *)
(* State: r, the reader of UXReduce; obs, for each event of the reduction   *)
(* the declarations in scope; x, the events with expanded names, as         *)
(* [k, u (namespace, <<>> if none), n, a (<<namespace, name, value>>), t];   *)
(* decl, all declarations so far in order; use, for each name used, of an   *)
(* element or attribute, <<whether it is of an attribute, name, namespace>>.*)
EXTENDS UXReduce

XE(k, u, n, a, t) == [k |-> k, u |-> u, n |-> n, a |-> a, t |-> t]
NInit == [r |-> RInit, obs |-> <<>>, x |-> <<>>, decl |-> <<>>, use |-> <<>>]

(* Declarations in scope, as set of <<prefix, URI>>; later ones come first *)
Bindings(scope) == { d \in Range(scope) : d[2] # <<>> /\ UriOf(scope, d[1]) = d[2] }

XmlUri == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,88,77,76,47,49,57,57,56,47,110,97,109,101,115,112,97,99,101>>
Ns(scope, p) == IF p = XMLP THEN XmlUri ELSE UriOf(scope, p)
NsA(scope, p) == IF p = <<>> THEN <<>> ELSE Ns(scope, p)

NStep(s, it) ==
  LET r == RStep(s.r, it)
      scope == IF it.i = "start" THEN it.ns \o s.r.scope ELSE s.r.scope
      new == Len(r.evs) - Len(s.r.evs)
      u == Ns(scope, it.p)
      as == Attributes(s.r, it)
      a == [k \in 1..Len(as) |-> <<NsA(scope, as[k][1]), as[k][2], as[k][3]>>]
      text == r.evs[Len(r.evs)].t
      xs == CASE it.i = "start" -> <<XE("S", u, it.n, a, <<>>)>> \o (IF it.e THEN <<XE("E", u, it.n, <<>>, <<>>)>> ELSE <<>>)
              [] it.i = "end" -> <<XE("E", u, it.n, <<>>, <<>>)>>
              [] new = 1 -> <<XE("T", <<>>, <<>>, <<>>, text)>>
              [] OTHER -> <<>>
  IN IF ~r.ok THEN [s EXCEPT !.r = r]
     ELSE [r |-> r,
           obs |-> s.obs \o [k \in 1..new |-> Bindings(scope)],
           \* more of the same text
           x |-> IF new = 0 /\ s.x # <<>> /\ Last(s.x).k = "T" THEN [s.x EXCEPT ![Len(s.x)] = XE("T", <<>>, <<>>, <<>>, text)] ELSE s.x \o xs,
           decl |-> IF it.i = "start" THEN s.decl \o it.ns ELSE s.decl,
           use |-> IF it.i = "start" THEN s.use \o <<<<FALSE, it.n, u>>>> \o [k \in 1..Len(a) |-> <<TRUE, a[k][2], a[k][1]>>] ELSE s.use]
Names(items) == FoldLeft(NStep, NInit, items)

-----------------------------------------------------------------------------
(* What is known when all has been read *)
Declared(s) == Range(s.decl)
\* prefix to the namespace declared last
Cumulative(s) == LET rev == [k \in 1..Len(s.decl) |-> s.decl[Len(s.decl) + 1 - k]] IN Bindings(rev)
\* prefixes ever declared for a namespace
PrefixesOf(s, u) == { d[1] : d \in {d \in Declared(s) : d[2] = u} } \cup IF u = XmlUri THEN {XMLP} ELSE {}

(* Whether a name is of one namespace which has one prefix only: then it is  *)
(* known which to write                                                     *)
Spaces(s, attr, n) == { w[3] : w \in {w \in Range(s.use) : w[1] = attr /\ w[2] = n} }
Sure(s, attr, n) == LET us == Spaces(s, attr, n) IN Cardinality(us) = 1 /\ \A u \in us : u = <<>> \/ Cardinality(PrefixesOf(s, u)) = 1
Entry(s, attr, n) ==    \* <<namespace, prefix>>
  LET u == CHOOSE u \in Spaces(s, attr, n) : TRUE IN <<u, IF u = <<>> THEN <<>> ELSE CHOOSE p \in PrefixesOf(s, u) : TRUE>>

(* Namespaces do not conflict (as in namespace normal form, but wherever     *)
(* they are declared), so that all can be declared at the top               *)
Simple(s) ==
  /\ \A d, e \in Declared(s) : (d[1] = e[1] <=> d[2] = e[2])
  /\ \A d \in Declared(s) : d[2] # <<>>
  /\ \A w \in Range(s.use) : Sure(s, w[1], w[2])
  /\ (\E d \in Declared(s) : d[1] = <<>>) => \A w \in Range(s.use) : ~w[1] => w[3] # <<>>

-----------------------------------------------------------------------------
(* Writing the reduced document with its namespaces: the items which declare *)
(* everything at the top and use the prefix known for each name             *)
SetToSeq2(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A j, k \in 1..Cardinality(S) : j # k => q[j] # q[k]
Prefixed(s, attr, n) == Entry(s, attr, n)[2]
Rewritten(s) ==
  [k \in 1..Len(s.r.evs) |->
     LET e == s.r.evs[k] IN
     CASE e.k = "S" -> [It("start") EXCEPT !.p = Prefixed(s, FALSE, e.n), !.n = e.n, !.ns = IF e.s = <<>> THEN SetToSeq2(Declared(s)) ELSE <<>>,
                                           !.a = [j \in 1..Len(e.a) |-> <<Prefixed(s, TRUE, e.a[j][1]), e.a[j][1], e.a[j][2]>>]]
       [] e.k = "E" -> [It("end") EXCEPT !.p = Prefixed(s, FALSE, e.n), !.n = e.n]
       [] OTHER -> [It("ref") EXCEPT !.t = e.t]]
=============================================================================
