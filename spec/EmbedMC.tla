------------------------------ MODULE EmbedMC ------------------------------
(* Every text over a hostile alphabet, up to MaxLen symbols: the payload      *)
(* reads back as the text, and it neither closes the script element nor opens *)
(* a comment or a nested script.                                              *)
EXTENDS Embed, TLC, Json, CSV, IOUtils
CONSTANTS Symbols, MaxLen
VARIABLES word

Alphabet == << <<97>>, <<34>>, <<92>>, <<60>>, <<47>>, <<39>>, <<10>>, <<8232>>, <<128512>>, <<0>>,
               CloseScript \o <<62>>, OpenScript \o <<62>>, OpenComment, CloseComment,
               <<60,60,60,100,97,116,97,62,62,62>>,          \* <<<data>>>
               <<60,60,60,104,97,115,104,62,62,62>>,         \* <<<hash>>>
               <<92,117,48,48,51,99>>,                       \* backslash u003c
               <<41,59,120,40>>, <<38,108,116,59>>, <<233>>, <<36,123>>, <<37,115>>, <<123,48,125>>,
               <<60,47,83,67,82,73,80,84,32,62>> >>          \* </SCRIPT >
RECURSIVE Text(_, _)
Text(w, i) == IF i > Len(w) THEN <<>> ELSE Alphabet[w[i]] \o Text(w, i + 1)
Init == word = <<>>
Next == Len(word) < MaxLen /\ \E s \in Symbols : word' = Append(word, s)
Spec == Init /\ [][Next]_word
T == Text(word, 1)
Page == OpenScript \o <<62>> \o Payload(T) \o <<59>> \o CloseScript \o <<62>>
RoundTrip == Read(TLCEval(Payload(T))) = T
Contained == ScriptText(TLCEval(Page)) = Payload(T) \o <<59>>
AngleFree == LET p == TLCEval(Payload(T)) IN \A i \in DOMAIN p : p[i] # 60
Emit == CSVWrite("%1$s", <<ToJson([text |-> T])>>, IOEnv.CASES)
=============================================================================
