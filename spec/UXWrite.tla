------------------------------- MODULE UXWrite ------------------------------
(* Serialization: encoding of trees, and writers.                           *)
(*                                                                          *)
(* A writer is a state machine over calls                                   *)
(*   [c |-> "S", n, a]  start element     [c |-> "T", t]  text              *)
(*   [c |-> "E", n]     end element       [c |-> "M", n, a] empty element   *)
(* with configuration cfg: [ns |-> declarations, <<prefix, namespace>>      *)
(* pairs, em |-> prefixes of elements, <<name, prefix>> pairs, am |->       *)
(* prefixes of attributes].                                                 *)
(*                                                                          *)
(* What counts is what a parser makes of the output, so the specification   *)
(* of a writer is the sequence of events which the calls amount to          *)
(* (CallEvents).  Esc, AttVal and Output are one way to write that down,    *)
(* which is checked against it in MCWrite.                                  *)
EXTENDS UXTree

EscChar(c) ==
  CASE c = AMP -> <<38, 97, 109, 112, 59>> [] c = LT -> <<38, 108, 116, 59>> [] c = GT -> <<38, 103, 116, 59>> [] OTHER -> <<c>>
Esc(t) == FoldLeft(LAMBDA s, c : s \o EscChar(c), <<>>, t)
AttChar(c) ==
  CASE c = QUOT -> <<38, 113, 117, 111, 116, 59>> [] c = LF -> <<38, 35, 49, 48, 59>> [] c = 9 -> <<38, 35, 57, 59>> [] OTHER -> EscChar(c)
AttVal(v) == <<QUOT>> \o FoldLeft(LAMBDA s, c : s \o AttChar(c), <<>>, v) \o <<QUOT>>

WAttrs(a) == FoldLeft(LAMBDA s, av : s \o <<32>> \o av[1] \o <<EQ>> \o AttVal(av[2]), <<>>, a)

RECURSIVE Encode(_, _)
Encode(h, i) ==
  IF h[i].k = "T" THEN Esc(h[i].t)
  ELSE FoldLeft(LAMBDA s, j : s \o Encode(h, j), <<LT>> \o h[i].n \o WAttrs(h[i].a) \o <<GT>>, h[i].c)
       \o <<LT, SLASH>> \o h[i].n \o <<GT>>

-----------------------------------------------------------------------------
Lookup(map, n) == LET m == SelectSeq(map, LAMBDA p : p[1] = n) IN IF m = <<>> THEN <<>> ELSE m[1][2]
Prefixed(map, n) == LET p == Lookup(map, n) IN IF p = <<>> THEN n ELSE p \o <<COLON>> \o n

XMLNS == <<120, 109, 108, 110, 115>>
Decls(cfg) == [k \in 1..Len(cfg.ns) |-> <<IF cfg.ns[k][1] = <<>> THEN XMLNS ELSE XMLNS \o <<COLON>> \o cfg.ns[k][1], cfg.ns[k][2]>>]

OutAttrs(cfg, a, first) ==
  (IF first THEN Decls(cfg) ELSE <<>>) \o [k \in 1..Len(a) |-> <<Prefixed(cfg.am, a[k][1]), a[k][2]>>]

(* Writer state: [evs |-> events so far, stack |-> names of open elements] *)
WInit == [evs |-> <<>>, stack |-> <<>>]
WStep(cfg, w, call) ==
  CASE call.c = "T" -> [w EXCEPT !.evs = AddText(@, call.t)]
    [] call.c = "E" -> LET rest == Front(w.stack) IN
         [evs |-> Append(w.evs, EvE(Prefixed(cfg.em, call.n), rest)), stack |-> rest]
    [] OTHER ->
         LET n == Prefixed(cfg.em, call.n)
             s == EvS(n, OutAttrs(cfg, call.a, w.evs = <<>>), w.stack)
         IN IF call.c = "M" THEN [w EXCEPT !.evs = Append(Append(@, s), EvE(n, w.stack))]
            ELSE [evs |-> Append(w.evs, s), stack |-> Append(w.stack, n)]
CallEvents(cfg, calls) == FoldLeft(LAMBDA w, c : WStep(cfg, w, c), WInit, calls).evs

(* Calls which are properly nested and make up one element *)
Proper(calls) ==
  LET Stp(s, c) ==
        IF s = <<<<>>>> THEN s
        ELSE CASE c.c = "S" -> IF s = <<<<1>>>> THEN <<<<>>>> ELSE Append(s, c.n)
               [] c.c = "T" -> IF s = <<>> \/ s = <<<<1>>>> THEN <<<<>>>> ELSE s
               [] c.c = "E" -> IF s # <<>> /\ Last(s) = c.n THEN IF Len(s) = 1 THEN <<<<1>>>> ELSE Front(s) ELSE <<<<>>>>
               [] OTHER -> IF s = <<>> THEN <<<<1>>>> ELSE IF s = <<<<1>>>> THEN <<<<>>>> ELSE s
  IN FoldLeft(Stp, <<>>, calls) = <<<<1>>>>

(* One way to write *)
Output(cfg, calls) ==
  FoldLeft(LAMBDA s, c :
    [first |-> s.first /\ c.c \notin {"S", "M"},
     x |-> s.x \o
       (CASE c.c = "T" -> Esc(c.t)
          [] c.c = "E" -> <<LT, SLASH>> \o Prefixed(cfg.em, c.n) \o <<GT>>
          [] OTHER -> <<LT>> \o Prefixed(cfg.em, c.n) \o WAttrs(OutAttrs(cfg, c.a, s.first)) \o
                      (IF c.c = "M" THEN <<SLASH, GT>> ELSE <<GT>>))],
    [first |-> TRUE, x |-> <<>>], calls).x

(* The calls which writing out a tree amounts to *)
RECURSIVE TreeCalls(_, _)
TreeCalls(h, i) ==
  IF h[i].k = "T" THEN <<[c |-> "T", n |-> <<>>, a |-> <<>>, t |-> h[i].t]>>
  ELSE Append(FoldLeft(LAMBDA s, j : s \o TreeCalls(h, j), <<[c |-> "S", n |-> h[i].n, a |-> h[i].a, t |-> <<>>]>>, h[i].c),
              [c |-> "E", n |-> h[i].n, a |-> <<>>, t |-> <<>>])

-----------------------------------------------------------------------------
(* Comparison up to white space added next to tags *)
AllWS(s) == \A k \in 1..Len(s) : IsWS(s[k])
Tags(evs) == SelectSeq(evs, LAMBDA e : e.k # "T")
(* Text before each tag, and after the last *)
Gaps(evs) ==
  LET r == FoldLeft(LAMBDA s, e : IF e.k = "T" THEN [s EXCEPT !.cur = @ \o e.t] ELSE [g |-> Append(s.g, s.cur), cur |-> <<>>],
                    [g |-> <<>>, cur |-> <<>>], evs)
  IN Append(r.g, r.cur)
Padded(t, o) ==
  \/ t = o
  \/ \E k \in 0..(Len(o) - Len(t)) :
       /\ SubSeq(o, k + 1, k + Len(t)) = t
       /\ AllWS(SubSeq(o, 1, k)) /\ AllWS(SubSeq(o, k + Len(t) + 1, Len(o)))
SameButPadding(evs, out) ==
  /\ Tags(evs) = Tags(out)
  /\ LET g == Gaps(evs) o == Gaps(out) IN \A k \in 1..Len(g) : Padded(g[k], o[k])

(* Attributes in any order (namespace declarations may come first or last) *)
SameEvent(e, f) ==
  IF e.k = "S" /\ f.k = "S" THEN e.n = f.n /\ e.s = f.s /\ Len(e.a) = Len(f.a) /\ ToSet(e.a) = ToSet(f.a)
  ELSE e = f
SameUpToAttrOrder(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameEvent(a[k], b[k])
=============================================================================
