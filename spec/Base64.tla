------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 Base64.  The encoder as a machine consuming 3-byte groups. *)
EXTENDS Integers, Sequences

Ch64 == [x \in 0..63 |-> IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4
                         ELSE IF x = 62 THEN 43 ELSE 47]
PAD == 61

\* the four characters of group number q (from 0)
Quad(d, q) ==
    LET n == Len(d) - 3 * q
        a == d[3 * q + 1]
        b == IF n > 1 THEN d[3 * q + 2] ELSE 0
        c == IF n > 2 THEN d[3 * q + 3] ELSE 0
    IN <<Ch64[a \div 4], Ch64[(a % 4) * 16 + b \div 16],
         IF n > 1 THEN Ch64[(b % 16) * 4 + c \div 64] ELSE PAD, IF n > 2 THEN Ch64[c % 64] ELSE PAD>>
EncLen(n) == 4 * ((n + 2) \div 3)
B64Encode(d) == [k \in 1..EncLen(Len(d)) |-> Quad(d, (k - 1) \div 4)[((k - 1) % 4) + 1]]

\* spellings: bit 0 of sp: padding left off; bit 1: URL-safe alphabet
Spelling(t, sp) ==
    LET n == IF sp % 2 = 0 THEN Len(t)
             ELSE Len(t) - (IF Len(t) > 0 /\ t[Len(t)] = PAD THEN 1 ELSE 0)
                         - (IF Len(t) > 1 /\ t[Len(t) - 1] = PAD THEN 1 ELSE 0)
    IN [k \in 1..n |-> IF sp >= 2 /\ t[k] = 43 THEN 45 ELSE IF sp >= 2 /\ t[k] = 47 THEN 95 ELSE t[k]]

Idx64(c) == CASE c >= 65 /\ c <= 90  -> c - 65
              [] c >= 97 /\ c <= 122 -> c - 71
              [] c >= 48 /\ c <= 57  -> c + 4
              [] c = 43 \/ c = 45    -> 62
              [] c = 47 \/ c = 95    -> 63
              [] OTHER               -> -1

\* t without its padding; is t one of the spellings of some bytes?
Bare(t) == Spelling(t, 1)
DecLen(t) == LET n == Len(Bare(t)) IN 3 * (n \div 4) + (IF n % 4 = 0 THEN 0 ELSE (n % 4) - 1)
B64Decode(t) ==
    LET u == Bare(t)
        v(k) == IF k <= Len(u) THEN Idx64(u[k]) ELSE 0
        byte(k) == LET q == 4 * ((k - 1) \div 3) IN
            CASE k % 3 = 1 -> v(q + 1) * 4 + v(q + 2) \div 16
              [] k % 3 = 2 -> (v(q + 2) % 16) * 16 + v(q + 3) \div 4
              [] OTHER     -> (v(q + 3) % 4) * 64 + v(q + 4)
    IN [k \in 1..DecLen(t) |-> byte(k)]
Valid64(t) == /\ \A k \in 1..Len(Bare(t)) : Idx64(Bare(t)[k]) # -1
              /\ Len(Bare(t)) % 4 # 1
              /\ Len(t) % 4 = 0 \/ Len(t) = Len(Bare(t))
              /\ LET b == B64Encode(B64Decode(t))
                 IN \E sp \in 0..3 : Spelling(b, sp) = t \/ Spelling(b, sp) = Spelling(t, 2)

(* ---- observed calls ---- *)
B64E(d, m, ok, term, o) ==
    /\ ok = (EncLen(Len(d)) + 1 <= m)
    /\ ok => term /\ o = B64Encode(d)

B64RT(d, ok, o) ==            \* decoding any spelling of the encoding of d into Len(d) bytes
    /\ ok = (Len(d) # 0)
    /\ ok => o = d

B64D(t, m, ok, o) ==          \* o: the bytes of the output area asked for
    /\ t = <<>> => ~ok
    /\ t # <<>> /\ Valid64(t) =>
         /\ ok = (DecLen(t) <= m)
         /\ ok => LET b == B64Decode(t) IN \A k \in 1..(IF Len(o) < Len(b) THEN Len(o) ELSE Len(b)) : o[k] = b[k]
=============================================================================
