------------------------------ MODULE UXChars ------------------------------
(* Character classes of MicroXML.  A character is its code point (an Int), *)
(* text is a sequence of code points.                                      *)
EXTENDS Naturals, Sequences

InR(c, lo, hi) == lo <= c /\ c <= hi

IsWS(c) == c \in {9, 10, 13, 32}

(* The last two code points of every plane, and FDD0..FDEF, are noncharacters. *)
IsSupp(c) == InR(c, 65536, 1114111) /\ (c % 65536) <= 65533

(* MicroXML char production (no CR: input line ends are normalized before). *)
IsChar(c) ==
  \/ c = 9 \/ c = 10 \/ InR(c, 32, 126) \/ InR(c, 160, 55295)
  \/ InR(c, 57344, 64975) \/ InR(c, 65008, 65533) \/ IsSupp(c)

LT == 60  GT == 62  AMP == 38  QUOT == 34  APOS == 39
SLASH == 47  EQ == 61  SEMI == 59  HASH == 35  LX == 120
BANG == 33  QM == 63  COLON == 58  CR == 13  LF == 10

IsData(c) == IsChar(c) /\ c \notin {LT, GT, AMP}
IsAttData(c, q) == IsData(c) /\ c # q

IsNameStart(c) ==
  \/ InR(c, 65, 90) \/ InR(c, 97, 122) \/ c = 95
  \/ InR(c, 192, 214) \/ InR(c, 216, 246) \/ InR(c, 248, 767)
  \/ InR(c, 880, 893) \/ InR(c, 895, 8191) \/ InR(c, 8204, 8205)
  \/ InR(c, 8304, 8591) \/ InR(c, 11264, 12271) \/ InR(c, 12289, 55295)
  \/ InR(c, 63744, 64975) \/ InR(c, 65008, 65533) \/ InR(c, 65536, 983039)

IsNameChar(c) ==
  \/ IsNameStart(c) \/ InR(c, 48, 57) \/ c \in {45, 46, 183}
  \/ InR(c, 768, 879) \/ InR(c, 8255, 8256)

IsName(s) == Len(s) > 0 /\ IsNameStart(s[1]) /\ \A i \in 2..Len(s) : IsNameChar(s[i])

IsDec(c) == InR(c, 48, 57)
IsHex(c) == IsDec(c) \/ InR(c, 65, 70) \/ InR(c, 97, 102)
IsAlnum(c) == IsDec(c) \/ InR(c, 65, 90) \/ InR(c, 97, 122)
HexVal(c) == IF IsDec(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

(* Named references: name -> character; 0 if there is none of that name. *)
NamedRef(n) ==
  IF n = <<108, 116>> THEN LT
  ELSE IF n = <<103, 116>> THEN GT
  ELSE IF n = <<97, 109, 112>> THEN AMP
  ELSE IF n = <<113, 117, 111, 116>> THEN QUOT
  ELSE IF n = <<97, 112, 111, 115>> THEN APOS
  ELSE 0
=============================================================================
