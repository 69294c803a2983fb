------------------------------ MODULE UXDetect ------------------------------
(* Does this look like XML?  A machine which takes bytes one by one.        *)
(*                                                                          *)
(* The first four bytes tell the encoding, or tell at once that it is XML.  *)
(* The rest is decoded by the encoding; what counts is the first character  *)
(* which is not white space, and that everything can be decoded.            *)
(* State:                                                                   *)
(*   pre    the first bytes, while there are less than four                 *)
(*   enc    "sniff", "yes", "utf8", "utf16le", "utf16be", "utf32le",        *)
(*          "utf32be" or "none" (nothing can be made of it)                 *)
(*   pend   bytes of a character of which there are more to come            *)
(*   hi     whether the first half of a surrogate pair has been read        *)
(*   first  "ws" so far only white space, "lt" or "other" the first other   *)
(*          character                                                       *)
EXTENDS Naturals, Sequences, SequencesExt

DInit == [pre |-> <<>>, enc |-> "sniff", pend |-> <<>>, hi |-> FALSE, first |-> "ws"]
Bad(st) == [DInit EXCEPT !.enc = "none"]
Yes(st) == [DInit EXCEPT !.enc = "yes"]

(* A character has been decoded *)
Char(st, c) ==
  LET s == [st EXCEPT !.pend = <<>>] IN
  IF st.first # "ws" \/ c \in {9, 10, 13, 32} THEN s ELSE [s EXCEPT !.first = IF c = 60 THEN "lt" ELSE "other"]

(* UTF-8: which bytes may come second, and how many there are *)
Length8(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0
Second8(b) == CASE b = 224 -> 160..191 [] b = 237 -> 128..159 [] b = 240 -> 144..191 [] b = 244 -> 128..143 [] OTHER -> 128..191
(* What comes next depends on the first byte only by this *)
Class8(b) == CASE b \in 194..223 -> 194 [] b \in (225..236) \cup {238, 239} -> 225 [] b \in 241..243 -> 241 [] OTHER -> b
Step8(st, b) ==
  LET p == Append(st.pend, b) n == Length8(p[1]) IN
  IF n = 0 THEN Bad(st)
  ELSE IF Len(p) = 2 /\ b \notin Second8(p[1]) THEN Bad(st)
  ELSE IF Len(p) > 2 /\ b \notin 128..191 THEN Bad(st)
  ELSE IF Len(p) < n THEN [st EXCEPT !.pend = IF Len(p) = 1 THEN <<Class8(b)>> ELSE Append(@, 128)]
  ELSE Char(st, IF n = 1 THEN b ELSE 128)     \* which one does not matter

Step16(st, b, big) ==
  IF st.pend = <<>> THEN [st EXCEPT !.pend = <<b>>]
  ELSE LET u == IF big THEN 256 * st.pend[1] + b ELSE 256 * b + st.pend[1] IN
       IF st.hi THEN IF u \in 56320..57343 THEN Char([st EXCEPT !.hi = FALSE], 65536) ELSE Bad(st)
       ELSE IF u \in 55296..56319 THEN [st EXCEPT !.hi = TRUE, !.pend = <<>>]
       ELSE IF u \in 56320..57343 THEN Bad(st)
       ELSE Char(st, u)

Step32(st, b, big) ==
  IF Len(st.pend) < 3 THEN [st EXCEPT !.pend = Append(@, b)]
  ELSE LET p == Append(st.pend, b)
           q == IF big THEN p ELSE Reverse(p)
           u == 65536 * q[2] + 256 * q[3] + q[4]
       IN IF q[1] # 0 \/ u > 1114111 \/ u \in 55296..57343 THEN Bad(st) ELSE Char(st, u)

Decode(st, b) ==
  CASE st.enc = "utf8" -> Step8(st, b)
    [] st.enc = "utf16le" -> Step16(st, b, FALSE)
    [] st.enc = "utf16be" -> Step16(st, b, TRUE)
    [] st.enc = "utf32le" -> Step32(st, b, FALSE)
    [] st.enc = "utf32be" -> Step32(st, b, TRUE)
    [] OTHER -> st

(* Ways of beginning *)
Declared == { <<60, 63, 120, 109>>, <<0, 60, 0, 63>>, <<60, 0, 63, 0>>, <<76, 111, 167, 148>>,
              <<0, 0, 0, 60>>, <<60, 0, 0, 0>>, <<0, 0, 60, 0>>, <<0, 60, 0, 0>> }
Sniffed(p) ==
  CASE p \in Declared -> [enc |-> "yes", skip |-> 0]
    [] p = <<0, 0, 254, 255>> -> [enc |-> "utf32be", skip |-> 4]
    [] p = <<255, 254, 0, 0>> -> [enc |-> "utf32le", skip |-> 4]
    [] p \in {<<0, 0, 255, 254>>, <<254, 255, 0, 0>>} -> [enc |-> "none", skip |-> 0]     \* orders which nobody can read
    [] SubSeq(p, 1, 3) = <<239, 187, 191>> -> [enc |-> "utf8", skip |-> 3]
    [] SubSeq(p, 1, 2) = <<254, 255>> -> [enc |-> "utf16be", skip |-> 2]
    [] SubSeq(p, 1, 2) = <<255, 254>> -> [enc |-> "utf16le", skip |-> 2]
    [] OTHER -> [enc |-> "utf8", skip |-> 0]

DStep(st, b) ==
  IF st.enc # "sniff" THEN Decode(st, b)
  ELSE LET p == Append(st.pre, b) IN
       IF Len(p) < 4 THEN [st EXCEPT !.pre = p]
       ELSE LET s == Sniffed(p)
                s0 == [DInit EXCEPT !.enc = s.enc]
            IN FoldLeft(Decode, s0, SubSeq(p, s.skip + 1, 4))

DFeed(st, bytes) == FoldLeft(DStep, st, bytes)

(* If this is all: less than four bytes are taken for UTF-8 *)
Looks(st) ==
  LET s == IF st.enc = "sniff" THEN FoldLeft(Decode, [DInit EXCEPT !.enc = "utf8"], st.pre) ELSE st IN
  CASE s.enc = "yes" -> TRUE
    [] s.enc = "none" -> FALSE
    [] OTHER -> s.pend = <<>> /\ ~s.hi /\ s.first = "lt"

IsXml(bytes) == Looks(DFeed(DInit, bytes))

-----------------------------------------------------------------------------
(* Encoders, to check the decoders against *)
Enc8(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Unit(u, big) == IF big THEN <<u \div 256, u % 256>> ELSE <<u % 256, u \div 256>>
Enc16(c, big) == IF c < 65536 THEN Unit(c, big) ELSE LET d == c - 65536 IN Unit(55296 + d \div 1024, big) \o Unit(56320 + (d % 1024), big)
Enc32(c, big) == LET b == <<0, c \div 65536, (c \div 256) % 256, c % 256>> IN IF big THEN b ELSE Reverse(b)
EncChar(enc, c) ==
  CASE enc = "utf8" -> Enc8(c) [] enc = "utf16le" -> Enc16(c, FALSE) [] enc = "utf16be" -> Enc16(c, TRUE)
    [] enc = "utf32le" -> Enc32(c, FALSE) [] OTHER -> Enc32(c, TRUE)
Mark(enc) ==
  CASE enc = "utf8" -> <<239, 187, 191>> [] enc = "utf16le" -> <<255, 254>> [] enc = "utf16be" -> <<254, 255>>
    [] enc = "utf32le" -> <<255, 254, 0, 0>> [] OTHER -> <<0, 0, 254, 255>>
EncText(enc, t) == FoldLeft(LAMBDA s, c : s \o EncChar(enc, c), <<>>, t)
=============================================================================
