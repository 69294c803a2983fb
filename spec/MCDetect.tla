------------------------------ MODULE MCDetect ------------------------------
(* Two explorations of the detector, by Mode:                               *)
(* "bytes": every transition of the machine, with one input which leads to  *)
(*   it.  The first four bytes are from Starts; those after from Bytes      *)
(*   (UTF-16) or FewBytes (UTF-32), or any byte in UTF-8.                   *)
(* "texts": all texts over Chars up to a length in all encodings, with and  *)
(*   without mark; whether they look like XML is plain to see.              *)
EXTENDS UXDetect, TLC, Json, FiniteSets
CONSTANTS Mode, Starts, Bytes, FewBytes, MaxLen, Chars

Encs == {"utf8", "utf16le", "utf16be", "utf32le", "utf32be"}
VARIABLES st, input, text, enc, mark

Init ==
  /\ st = DInit /\ input = <<>> /\ text = <<>>
  /\ IF Mode = "bytes" THEN enc = "utf8" /\ mark = FALSE
     ELSE enc \in Encs /\ mark \in (IF enc = "utf8" THEN BOOLEAN ELSE {TRUE})

Pick == IF st.enc = "sniff" THEN Starts ELSE IF st.enc = "utf8" THEN 0..255 ELSE IF st.enc \in {"utf16le", "utf16be"} THEN Bytes ELSE FewBytes
NextByte ==
  /\ Mode = "bytes" /\ Len(input) < MaxLen /\ st.enc \notin {"none"}
  /\ \E b \in Pick :
       /\ st' = DStep(st, b) /\ input' = Append(input, b)
       /\ PrintT("SC " \o ToJson([b |-> input']))
  /\ UNCHANGED <<text, enc, mark>>
NextChar ==
  /\ Mode = "texts" /\ Len(text) < MaxLen
  /\ \E c \in Chars :
       /\ text' = Append(text, c)
       /\ input' = (IF mark THEN Mark(enc) ELSE <<>>) \o EncText(enc, text')
       /\ st' = DFeed(DInit, input')
       /\ PrintT("SC " \o ToJson([b |-> input']))
  /\ UNCHANGED <<enc, mark>>
Next == NextByte \/ NextChar
Spec == Init /\ [][Next]_<<st, input, text, enc, mark>>
\* (one input for each state of the machine)
MCView == IF Mode = "bytes" THEN <<st>> ELSE <<text, enc, mark>>

Visible == SelectSeq(text, LAMBDA c : c \notin {9, 10, 13, 32})
\* Not where the beginning means something else: a declaration, or UTF-16 of U+0000 taken for the mark of UTF-32;
\* nor for a mark by itself, too short to be one
Means == /\ Len(input) >= 4 => SubSeq(input, 1, 4) \notin Declared
         /\ text # <<>> /\ ~(enc \in {"utf16le", "utf16be"} /\ text[1] = 0)
         /\ (mark => Len(input) >= 4) /\ (~mark => text[1] # 65279)
InvTexts == Mode = "texts" /\ Means => (Looks(st) <=> (Visible # <<>> /\ Visible[1] = 60))
InvDeclared == \A d \in Declared : IsXml(d) /\ IsXml(d \o <<255>>)
InvFed == st = DFeed(DInit, input)
=============================================================================
