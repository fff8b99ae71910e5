------------------------------- MODULE Embed -------------------------------
(* Text embedded in a web page: a value is written as JSON, as a JavaScript   *)
(* string literal and inside an HTML script element.  Texts are sequences of  *)
(* code points.  Decoders follow the HTML tokenizer's script data states and  *)
(* the grammar of string literals.                                            *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
At(t, i, w) == /\ i + Len(w) - 1 <= Len(t)
               /\ \A k \in 1 .. Len(w) : Lower(t[i + k - 1]) = w[k]
OpenScript == <<60,115,99,114,105,112,116>>             \* <script
CloseScript == <<60,47,115,99,114,105,112,116>>         \* </script
OpenComment == <<60,33,45,45>>                          \* <!--
CloseComment == <<45,45,62>>                            \* -->
Ends(t, i) == i > Len(t) \/ t[i] \in {9, 10, 12, 13, 32, 47, 62}   \* ends a tag name

Min(S) == CHOOSE i \in S : \A j \in S : i <= j
(* positions of interest, by what starts there *)
Marks(t) ==
  LET angle == TLCEval({i \in DOMAIN t : t[i] = 60})
      dash == TLCEval({i \in DOMAIN t : t[i] = 62})
  IN [close |-> {i \in angle : At(t, i, CloseScript) /\ Ends(t, i + 8)},
      open |-> {i \in angle : At(t, i, OpenScript) /\ Ends(t, i + 7)},
      comment |-> {i \in angle : At(t, i, OpenComment)},
      end |-> {i - 2 : i \in {j \in dash : IF j > 2 THEN At(t, j - 2, CloseComment) ELSE FALSE}}]

(* Position at which the script element whose text starts at i is closed, or  *)
(* 0.  mode: "data", "escaped" (after <!--), "double" (escaped, after a nested *)
(* <script).                                                                  *)
RECURSIVE CloseOf(_, _, _)
CloseOf(m, i, mode) ==
  LET next == TLCEval({j \in m.close \union m.open \union m.comment \union m.end : j >= i}) IN
  IF next = {} THEN 0
  ELSE LET j == TLCEval(Min(next)) IN
       IF j \in m.close THEN IF mode = "double" THEN CloseOf(m, j + 8, "escaped") ELSE j
       ELSE IF mode = "data" /\ j \in m.comment THEN CloseOf(m, j + 2, "escaped")
       ELSE IF mode # "data" /\ j \in m.end THEN CloseOf(m, j + 3, "data")
       ELSE IF mode = "escaped" /\ j \in m.open THEN CloseOf(m, j + 7, "double")
       ELSE CloseOf(m, j + 1, mode)

(* [from, to): the text of the first script element; <<0, 0>> if there is none *)
ScriptSpan(t) ==
  LET m == TLCEval(Marks(t)) IN
  IF m.open = {} THEN <<0, 0>>
  ELSE LET o == TLCEval(Min(m.open))
           gt == {i \in o .. Len(t) : t[i] = 62}
       IN IF gt = {} THEN <<0, 0>>
          ELSE LET b == TLCEval(Min(gt) + 1)
                   e == TLCEval(CloseOf(m, b, "data"))
               IN IF e = 0 THEN <<0, 0>> ELSE <<b, e>>
ScriptText(t) == LET s == TLCEval(ScriptSpan(t)) IN IF s = <<0, 0>> THEN <<>> ELSE SubSeq(t, s[1], s[2] - 1)

(* --- writing ------------------------------------------------------------- *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
U4(c) == <<92, 117, HexDigit(c \div 4096), HexDigit((c \div 256) % 16), HexDigit((c \div 16) % 16), HexDigit(c % 16)>>
EscapeUnit(c) ==
  CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
    [] c = 9 -> <<92, 116>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
    [] c < 32 \/ c > 126 -> (IF c > 65535
          THEN U4(55296 + ((c - 65536) \div 1024)) \o U4(56320 + ((c - 65536) % 1024)) ELSE U4(c))
    [] OTHER -> <<c>>
RECURSIVE EscapeFrom(_, _)
EscapeFrom(t, i) == IF i > Len(t) THEN <<>> ELSE EscapeUnit(t[i]) \o EscapeFrom(t, i + 1)
Quote(t) == <<34>> \o EscapeFrom(t, 1) \o <<34>>
NoAngle(c) == IF c = 60 THEN U4(60) ELSE <<c>>
RECURSIVE NoAngles(_, _)
NoAngles(t, i) == IF i > Len(t) THEN <<>> ELSE NoAngle(t[i]) \o NoAngles(t, i + 1)
Payload(t) == NoAngles(TLCEval(Quote(TLCEval(Quote(t)))), 1)

(* --- reading ------------------------------------------------------------- *)
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
            ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Bad == << -1 >>
(* the units of the literal that starts with the quote at i, or Bad; js says  *)
(* whether it is a JavaScript literal (any escaped character stands for       *)
(* itself) or JSON                                                            *)
Single(c, js) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 98 -> 8 [] c = 102 -> 12
                   [] c \in {34, 92, 47} -> c [] OTHER -> IF js THEN c ELSE -1
RECURSIVE Units(_, _, _)
Units(t, i, js) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = 34 THEN <<>>
  ELSE IF t[i] \in {10, 13} \/ (~ js /\ t[i] < 32) THEN Bad
  ELSE IF t[i] = 92
       THEN IF i = Len(t) THEN Bad
            ELSE IF t[i + 1] = 117
                 THEN IF i + 5 > Len(t) \/ \E k \in 2 .. 5 : Digit(t[i + k]) < 0 THEN Bad
                      ELSE << Digit(t[i + 2]) * 4096 + Digit(t[i + 3]) * 256 + Digit(t[i + 4]) * 16 + Digit(t[i + 5]) >>
                           \o Units(t, i + 6, js)
                 ELSE << Single(t[i + 1], js) >> \o Units(t, i + 2, js)
  ELSE <<t[i]>> \o Units(t, i + 1, js)
Unquote(t, js) == IF t = <<>> THEN Bad ELSE IF t[1] # 34 THEN Bad ELSE Units(t, 2, js)
(* pair surrogates *)
RECURSIVE Points(_, _)
Points(t, i) == IF i > Len(t) THEN <<>>
  ELSE IF i < Len(t) /\ t[i] >= 55296 /\ t[i] < 56320 /\ t[i + 1] >= 56320 /\ t[i + 1] < 57344
       THEN << 65536 + (t[i] - 55296) * 1024 + (t[i + 1] - 56320) >> \o Points(t, i + 2)
  ELSE <<t[i]>> \o Points(t, i + 1)
Read(t) == Points(TLCEval(Unquote(TLCEval(Unquote(t, TRUE)), FALSE)), 1)
=============================================================================
