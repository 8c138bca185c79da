------------------------------ MODULE MC_Ciphers ------------------------------
(* Caesar and Vernam as the loops of crypto/*.c compute them - unsigned resp. signed char arithmetic
   with C's truncating remainder - for every character and every shift or key character: encrypting
   meets Text.tla and decrypting gives the character back.  One step per call.                  *)
EXTENDS Text, TLC

CONSTANTS Chars, Params

VARIABLES fn, c, s, now, enc, pc     \* c: the message character (byte value), s: the shift or the key character
vars == <<fn, c, s, now, enc, pc>>

Init == fn \in {"caesar", "vernam"} /\ c \in Chars /\ s \in Params /\ now = c /\ enc = -1 /\ pc = "plain"

Int8(b) == IF b >= 128 THEN b - 256 ELSE b
\* C's remainder (truncated division)
Rem(x, y) == IF x >= 0 THEN x % y ELSE -((-x) % y)
CBase == IF IsUpper(now) THEN 65 ELSE 97
KBase == IF IsLower(s) THEN 97 ELSE 65

CaesarEnc == (((now + s) - CBase) % 26) + CBase
CaesarDec == (((now - CBase) + (26 - (s % 26))) % 26) + CBase
VernamEnc == LET t == Rem(((Int8(now) - CBase) + Int8(s)) - KBase, 26) IN IF t < 0 THEN t + 26 + CBase ELSE t + CBase
VernamDec == LET t == Rem((Int8(now) - CBase) - (Int8(s) - KBase), 26) IN IF t < 0 THEN t + 26 + CBase ELSE t + CBase

Encrypt == /\ pc = "plain" /\ pc' = "secret"
           /\ now' = IF ~IsLetter(now) THEN now ELSE IF fn = "caesar" THEN CaesarEnc ELSE VernamEnc
           /\ enc' = now'
Decrypt == /\ pc = "secret" /\ pc' = "back"
           /\ now' = IF ~IsLetter(now) THEN now ELSE IF fn = "caesar" THEN CaesarDec ELSE VernamDec
           /\ UNCHANGED enc
Next == (Encrypt \/ Decrypt) /\ UNCHANGED <<fn, c, s>>
Spec == Init /\ [][Next]_vars

IsChar == now \in 0..255
Meets == pc = "back" => IF fn = "caesar" THEN Caesar(s, <<c>>, <<enc, 0>>, <<now, 0>>)
                        ELSE Vernam(<<s>>, 1, <<c>>, TRUE, <<enc, 0>>, TRUE, <<now, 0>>)
=============================================================================
