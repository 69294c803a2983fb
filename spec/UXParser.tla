------------------------------ MODULE UXParser ------------------------------
(* The MicroXML parser as a state machine over characters.                  *)
(*                                                                          *)
(* State: a record                                                          *)
(*   mode   lexical mode (see Modes)                                        *)
(*   name   name being read / name of the tag being read                    *)
(*   attrs  attributes of the tag so far, <<name, value>> pairs             *)
(*   aname  attribute being read                                            *)
(*   quote  its opening quote                                               *)
(*   buf    character data (text or attribute value) read so far            *)
(*   ref    reference being read: its characters after '&'                  *)
(*   back   mode to return to after the reference                           *)
(*   stack  names of the open elements, outermost first                     *)
(*   evs    events delivered                                                *)
(*   tags   marks on the input (below)                                      *)
(*   cr     whether the last character was a CR in text or attribute value  *)
(*                                                                          *)
(* Events: [k |-> "S", n, a, s] start, [k |-> "T", t] text, [k |-> "E", n, s]*)
(* end; s is the names of the ancestors, outermost first.                   *)
(*                                                                          *)
(* Event timing is part of the specification: a start or end event comes    *)
(* with the '>' of its tag, a text event with the '<' after it.             *)
(*                                                                          *)
(* Two classes of input are marked in tags:                                 *)
(*   "ltspace"  white space between '<' or '</' and the name.  MicroXML     *)
(*              rejects it, the implementation is known to accept it; the   *)
(*              state goes on as the implementation does.  Rejecting is     *)
(*              right, that exact behaviour is a known finding, anything    *)
(*              else is wrong.                                              *)
(*   "cr"       a CR which is not part of a CR LF in text or an attribute   *)
(*              value, about which nothing is claimed (CR LF is LF).        *)
(*                                                                          *)
(* Mode "unspec" absorbs input about which nothing is claimed but that the  *)
(* parse ends (comments and empty-element tags, which the implementation    *)
(* does not support).                                                       *)
(*                                                                          *)
(* xmlish = TRUE is the variant for reading what writers and serializers    *)
(* put out, where empty-element tags and ':' in names are used.             *)
EXTENDS UXChars, SequencesExt, Integers, FiniteSets

Modes == {"pre", "lt", "slash", "sname", "intag", "postval", "aname", "aeq",
          "aval0", "aval", "ref", "ename", "etag", "sc", "text", "post",
          "reject", "unspec"}

PInit(xmlish) ==
  [mode |-> "pre", name |-> <<>>, attrs |-> <<>>, aname |-> <<>>, quote |-> 0,
   buf |-> <<>>, ref |-> <<>>, back |-> "pre", stack |-> <<>>, evs |-> <<>>,
   tags |-> {}, cr |-> FALSE, xmlish |-> xmlish]

NSt(st, c) == IsNameStart(c)
NCh(st, c) == IsNameChar(c) \/ (st.xmlish /\ c = COLON)

Rej(st) == [st EXCEPT !.mode = "reject"]
Go(st, m) == [st EXCEPT !.mode = m]

EvS(n, a, s) == [k |-> "S", n |-> n, a |-> a, s |-> s]
EvT(t) == [k |-> "T", t |-> t]
EvE(n, s) == [k |-> "E", n |-> n, s |-> s]

DoOpen(st) ==
  [st EXCEPT !.evs = Append(@, EvS(st.name, st.attrs, st.stack)),
             !.stack = Append(@, st.name),
             !.attrs = <<>>, !.buf = <<>>, !.mode = "text"]

DoClose(st) ==
  IF st.stack = <<>> \/ Last(st.stack) # st.name THEN Rej(st)
  ELSE LET rest == Front(st.stack) IN
       [st EXCEPT !.evs = Append(@, EvE(st.name, rest)),
                  !.stack = rest, !.buf = <<>>,
                  !.mode = IF rest = <<>> THEN "post" ELSE "text"]

DoText(st) ==
  [st EXCEPT !.evs = IF st.buf = <<>> THEN @ ELSE Append(@, EvT(st.buf)),
             !.buf = <<>>, !.mode = "lt"]

HasAttr(attrs, n) == \E i \in 1..Len(attrs) : attrs[i][1] = n

DoAttr(st) ==
  IF HasAttr(st.attrs, st.aname) THEN Rej(st)
  ELSE [st EXCEPT !.attrs = Append(@, <<st.aname, st.buf>>), !.buf = <<>>, !.mode = "postval"]

(* Numeric value of digits, saturated above the Unicode range. *)
NumVal(ds, base) ==
  FoldLeft(LAMBDA v, d : IF v > 1114111 THEN v ELSE v * base + HexVal(d), 0, ds)

(* Character denoted by the reference with the given characters between '&' and ';', or 0. *)
RefChar(r) ==
  IF r = <<>> THEN 0
  ELSE IF r[1] = HASH THEN
    LET hex == Len(r) > 1 /\ r[2] = LX
        ds == IF hex THEN SubSeq(r, 3, Len(r)) ELSE SubSeq(r, 2, Len(r))
        v == NumVal(ds, IF hex THEN 16 ELSE 10)
    IN IF ds = <<>> \/ ~IsChar(v) THEN 0 ELSE v
  ELSE NamedRef(r)

(* Whether c may continue the reference r (';' ends it). *)
RefCont(r, c) ==
  IF r = <<>> THEN c = HASH \/ IsAlnum(c)
  ELSE IF r[1] = HASH THEN
         IF Len(r) = 1 THEN c = LX \/ IsDec(c)
         ELSE IF r[2] = LX THEN IsHex(c) ELSE IsDec(c)
  ELSE IsAlnum(c)

DoRef(st, c) ==
  IF c = SEMI THEN
    LET v == RefChar(st.ref) IN
    IF v = 0 THEN Rej(st)
    ELSE [st EXCEPT !.buf = Append(@, v), !.ref = <<>>, !.mode = st.back]
  ELSE IF RefCont(st.ref, c) THEN [st EXCEPT !.ref = Append(@, c)]
  ELSE Rej(st)

SelfClose(st) == IF st.xmlish THEN Go(st, "sc") ELSE Go(st, "unspec")

(* A character of text or of an attribute value *)
DoChar(st, c, ok) ==
  IF ok THEN [st EXCEPT !.buf = Append(@, c)]
  ELSE IF c = CR THEN [st EXCEPT !.cr = TRUE]
  ELSE Rej(st)

StepC(st, c) ==
  CASE st.mode \in {"reject", "unspec"} -> st
    [] st.mode = "pre" ->
         IF IsWS(c) THEN st ELSE IF c = LT THEN Go(st, "lt") ELSE Rej(st)
    [] st.mode = "lt" ->
         IF IsWS(c) THEN [st EXCEPT !.tags = @ \cup {"ltspace"}]
         ELSE IF c = SLASH THEN Go(st, "slash")
         ELSE IF NSt(st, c) THEN [st EXCEPT !.name = <<c>>, !.attrs = <<>>, !.mode = "sname"]
         ELSE IF c \in {BANG, QM} THEN Go(st, "unspec")
         ELSE Rej(st)
    [] st.mode = "slash" ->
         IF IsWS(c) THEN [st EXCEPT !.tags = @ \cup {"ltspace"}]
         ELSE IF NSt(st, c) THEN [st EXCEPT !.name = <<c>>, !.mode = "ename"]
         ELSE Rej(st)
    [] st.mode = "sname" ->
         IF NCh(st, c) THEN [st EXCEPT !.name = Append(@, c)]
         ELSE IF IsWS(c) THEN Go(st, "intag")
         ELSE IF c = GT THEN DoOpen(st)
         ELSE IF c = SLASH THEN SelfClose(st)
         ELSE Rej(st)
    [] st.mode \in {"intag", "postval"} ->
         IF IsWS(c) THEN Go(st, "intag")
         ELSE IF c = GT THEN DoOpen(st)
         ELSE IF NSt(st, c) /\ st.mode = "intag" THEN [st EXCEPT !.aname = <<c>>, !.mode = "aname"]
         ELSE IF c = SLASH THEN SelfClose(st)
         ELSE Rej(st)
    [] st.mode = "aname" ->
         IF NCh(st, c) THEN [st EXCEPT !.aname = Append(@, c)]
         ELSE IF IsWS(c) THEN Go(st, "aeq")
         ELSE IF c = EQ THEN Go(st, "aval0")
         ELSE Rej(st)
    [] st.mode = "aeq" ->
         IF IsWS(c) THEN st ELSE IF c = EQ THEN Go(st, "aval0") ELSE Rej(st)
    [] st.mode = "aval0" ->
         IF IsWS(c) THEN st
         ELSE IF c \in {QUOT, APOS} THEN [st EXCEPT !.quote = c, !.buf = <<>>, !.mode = "aval"]
         ELSE Rej(st)
    [] st.mode = "aval" ->
         IF c = st.quote THEN DoAttr(st)
         ELSE IF c = AMP THEN [st EXCEPT !.ref = <<>>, !.back = "aval", !.mode = "ref"]
         ELSE DoChar(st, c, IsAttData(c, st.quote) \/ (st.xmlish /\ c = GT))
    [] st.mode = "ref" -> DoRef(st, c)
    [] st.mode = "ename" ->
         IF NCh(st, c) THEN [st EXCEPT !.name = Append(@, c)]
         ELSE IF IsWS(c) THEN Go(st, "etag")
         ELSE IF c = GT THEN DoClose(st)
         ELSE Rej(st)
    [] st.mode = "etag" ->
         IF IsWS(c) THEN st ELSE IF c = GT THEN DoClose(st) ELSE Rej(st)
    [] st.mode = "sc" ->
         IF c = GT THEN DoClose(DoOpen(st)) ELSE Rej(st)
    [] st.mode = "text" ->
         IF c = LT THEN DoText(st)
         ELSE IF c = AMP THEN [st EXCEPT !.ref = <<>>, !.back = "text", !.mode = "ref"]
         ELSE DoChar(st, c, IsData(c) \/ (st.xmlish /\ c = GT))
    [] st.mode = "post" -> IF IsWS(c) THEN st ELSE Rej(st)

Step(st, c) ==
  IF st.cr THEN LET s1 == [st EXCEPT !.cr = FALSE]
                IN StepC(IF c = 10 THEN s1 ELSE [s1 EXCEPT !.tags = @ \cup {"cr"}], c)
  ELSE StepC(st, c)

Feed(st, chars) == FoldLeft(Step, st, chars)
Run(chars) == Feed(PInit(FALSE), chars)
RunX(chars) == Feed(PInit(TRUE), chars)

(* Outcome of the parse if the input ends here. *)
Outcome(st) ==
  CASE st.mode = "unspec" -> "any"
    [] st.mode = "post" -> "ok"
    [] st.mode = "pre" -> "none"      \* nothing but white space: no document, no events
    [] OTHER -> "err"

-----------------------------------------------------------------------------
(* Properties of every reachable state *)

TypeOK(st) ==
  /\ st.mode \in Modes
  /\ \A i \in 1..Len(st.stack) : Len(st.stack[i]) > 0
  /\ st.mode = "ref" => st.back \in {"aval", "text"}

(* Replay of a sequence of events: the names which are open after them, or <<<<>>>> if they do not nest *)
OpenAfter(evs) ==
  FoldLeft(LAMBDA s, e :
      CASE s = <<<<>>>> -> s
        [] e.k = "S" -> IF e.s = s THEN Append(s, e.n) ELSE <<<<>>>>
        [] e.k = "E" -> IF s # <<>> /\ Last(s) = e.n /\ Front(s) = e.s THEN e.s ELSE <<<<>>>>
        [] OTHER -> IF s # <<>> /\ e.t # <<>> THEN s ELSE <<<<>>>>,
    <<>>, evs)

Nested(st) == st.mode # "reject" => OpenAfter(st.evs) = st.stack
NoAdjacentText(st) ==
  \A i \in 1..(Len(st.evs) - 1) : ~(st.evs[i].k = "T" /\ st.evs[i+1].k = "T")
OneRoot(st) ==
  /\ Len(SelectSeq(st.evs, LAMBDA e : e.k = "S" /\ e.s = <<>>)) <= 1
  /\ st.mode = "post" => (st.stack = <<>> /\ st.evs # <<>> /\ Last(st.evs).k = "E")
  /\ st.mode = "pre" => st.evs = <<>>

(* Shortest way to a complete document from here (for states where there is one) *)
RECURSIVE CloseAll(_)
CloseAll(stack) ==
  IF stack = <<>> THEN <<>>
  ELSE <<LT, SLASH>> \o Last(stack) \o <<GT>> \o CloseAll(Front(stack))

OpenOf(st) == st.stack \o <<st.name>>
RECURSIVE Complete(_)
Complete(st) ==
  CASE st.mode = "pre" -> <<LT, 97, GT>> \o CloseAll(<<<<97>>>>)
    [] st.mode = "lt" -> <<97, GT>> \o CloseAll(Append(st.stack, <<97>>))
    [] st.mode = "slash" -> IF st.stack = <<>> THEN <<>>
                            ELSE Last(st.stack) \o <<GT>> \o CloseAll(Front(st.stack))
    [] st.mode \in {"sname", "intag", "postval"} -> <<GT>> \o CloseAll(OpenOf(st))
    [] st.mode \in {"aname", "aeq"} -> <<EQ, QUOT, QUOT, GT>> \o CloseAll(OpenOf(st))
    [] st.mode = "aval0" -> <<QUOT, QUOT, GT>> \o CloseAll(OpenOf(st))
    [] st.mode = "aval" -> <<st.quote, GT>> \o CloseAll(OpenOf(st))
    [] st.mode = "ref" -> IF st.ref = <<>> THEN <<108, 116, SEMI>> \o Complete(Go(st, st.back))
                          ELSE <<SEMI>> \o Complete(Go(st, st.back))
    [] st.mode = "ename" -> <<GT>> \o (IF st.stack = <<>> THEN <<>> ELSE CloseAll(Front(st.stack)))
    [] st.mode = "etag" -> <<GT>> \o (IF st.stack = <<>> THEN <<>> ELSE CloseAll(Front(st.stack)))
    [] st.mode = "text" -> CloseAll(st.stack)
    [] OTHER -> <<>>
=============================================================================
