------------------------------ MODULE UXReduce ------------------------------
(* Reduction of namespaced XML to MicroXML.                                 *)
(*                                                                          *)
(* An XML document is given as the sequence of its items:                   *)
(*   [i |-> "start", p |-> prefix, n |-> local name, ns |-> namespace       *)
(*    declarations <<prefix, URI>> of it (empty prefix: default namespace), *)
(*    a |-> attributes <<prefix, local name, value>>, e |-> whether it is an*)
(*    empty-element tag]                                                    *)
(*   [i |-> "end", p, n]                                                    *)
(*   [i |-> "text" | "cdata" | "ref", t |-> characters]                     *)
(*   [i |-> "com" | "pi"]  comment, processing instruction                  *)
(*   [i |-> "decl"] XML declaration, only as first item                     *)
(*   [i |-> "dtd", ent |-> <<name, value>> entities, att |-> defaults of    *)
(*    attributes <<prefix, name of element, prefix, name, value>>]: document*)
(*    type                                                                  *)
(*   [i |-> "ent", n |-> name] entity reference                             *)
(*   [i |-> "bad"] something which is malformed wherever it is              *)
(* so that truncation is a missing end.                                     *)
EXTENDS UXTree

It(i) == [i |-> i, p |-> <<>>, n |-> <<>>, ns |-> <<>>, a |-> <<>>, e |-> FALSE, t |-> <<>>, ent |-> <<>>, att |-> <<>>]

XMLP == <<120, 109, 108>>   \* the prefix xml

(* Reader state: [ok, stack |-> <<prefix, local, number of declarations>>,  *)
(*  scope |-> declarations in force, later ones first, evs, open (local     *)
(*  names), phase 0 before root, 1 inside, 2 after, dtd, ents, atts (defaults)]     *)
RInit == [ok |-> TRUE, stack |-> <<>>, scope |-> <<>>, evs |-> <<>>, open |-> <<>>, phase |-> 0, dtd |-> FALSE, ents |-> <<>>, atts |-> <<>>, k |-> 0]

UriOf(scope, p) ==   \* <<0>> if the prefix is not bound
  IF p = XMLP THEN <<1>>
  ELSE LET d == SelectSeq(scope, LAMBDA b : b[1] = p) IN IF d = <<>> THEN IF p = <<>> THEN <<>> ELSE <<0>> ELSE d[1][2]

NoDup(s) == \A j, k \in 1..Len(s) : j # k => s[j] # s[k]

\* attributes of a start tag, with those by default; the first declaration counts
Attributes(s, it) ==
  LET D == SelectSeq(s.atts, LAMBDA d : d[1] = it.p /\ d[2] = it.n)
  IN FoldLeft(LAMBDA a, d : IF \E j \in 1..Len(a) : a[j][1] = d[3] /\ a[j][2] = d[4] THEN a ELSE Append(a, <<d[3], d[4], d[5]>>), it.a, D)

RStart(s, tag) ==
  LET it == [tag EXCEPT !.a = Attributes(s, tag)]
      scope == it.ns \o s.scope
      attok == /\ \A k \in 1..Len(it.a) : it.a[k][1] = <<>> \/ UriOf(scope, it.a[k][1]) # <<0>>
               /\ NoDup([k \in 1..Len(tag.a) |-> <<tag.a[k][1], tag.a[k][2]>>])
               /\ NoDup([k \in 1..Len(it.a) |-> <<IF it.a[k][1] = <<>> THEN <<2>> ELSE UriOf(scope, it.a[k][1]), it.a[k][2]>>])
      nsok == NoDup([k \in 1..Len(it.ns) |-> it.ns[k][1]]) /\ \A k \in 1..Len(it.ns) : it.ns[k][1] # <<>> => it.ns[k][2] # <<>>
      attrs == [k \in 1..Len(it.a) |-> <<it.a[k][2], it.a[k][3]>>]
      ev == EvS(it.n, attrs, s.open)
  IN IF s.phase = 2 \/ UriOf(scope, it.p) = <<0>> \/ ~attok \/ ~nsok THEN [s EXCEPT !.ok = FALSE]
     ELSE IF it.e
          THEN [s EXCEPT !.evs = Append(Append(@, ev), EvE(it.n, s.open)), !.phase = IF s.stack = <<>> THEN 2 ELSE 1]
          ELSE [s EXCEPT !.evs = Append(@, ev), !.phase = 1, !.scope = scope, !.open = Append(@, it.n),
                         !.stack = Append(@, <<it.p, it.n, Len(it.ns)>>)]

REnd(s, it) ==
  IF s.stack = <<>> \/ Last(s.stack)[1] # it.p \/ Last(s.stack)[2] # it.n THEN [s EXCEPT !.ok = FALSE]
  ELSE LET rest == Front(s.open) IN
       [s EXCEPT !.evs = Append(@, EvE(it.n, rest)), !.open = rest, !.phase = IF rest = <<>> THEN 2 ELSE 1,
                 !.scope = SubSeq(@, Last(s.stack)[3] + 1, Len(@)), !.stack = Front(@)]

RText(s, t, markup) ==
  IF s.phase = 1 THEN [s EXCEPT !.evs = AddText(@, t)]
  ELSE IF markup \/ ~(\A k \in 1..Len(t) : IsWS(t[k])) THEN [s EXCEPT !.ok = FALSE] ELSE s

RStep(s0, it) ==
  LET s == [s0 EXCEPT !.k = @ + 1] IN
  IF ~s.ok THEN s
  ELSE CASE it.i = "start" -> RStart(s, it)
         [] it.i = "end" -> REnd(s, it)
         [] it.i = "text" -> RText(s, it.t, FALSE)
         [] it.i \in {"cdata", "ref"} -> RText(s, it.t, TRUE)
         [] it.i \in {"com", "pi"} -> s
         [] it.i = "decl" -> IF s.k = 1 THEN s ELSE [s EXCEPT !.ok = FALSE]
         [] it.i = "dtd" -> IF s.phase = 0 /\ ~s.dtd THEN [s EXCEPT !.dtd = TRUE, !.ents = it.ent, !.atts = it.att] ELSE [s EXCEPT !.ok = FALSE]
         [] it.i = "ent" -> LET m == SelectSeq(s.ents, LAMBDA x : x[1] = it.n) IN
                            IF m = <<>> THEN [s EXCEPT !.ok = FALSE] ELSE RText(s, m[1][2], TRUE)
         [] OTHER -> [s EXCEPT !.ok = FALSE]

Read(items) == FoldLeft(RStep, RInit, items)
WellFormed(items) == LET s == Read(items) IN s.ok /\ s.phase = 2
(* Malformed whatever might follow, rather than just not complete *)
Malformed(items) == ~Read(items).ok
Reduced(items) == Read(items).evs
=============================================================================
