-------------------------------- MODULE Words --------------------------------
(* 32-bit words as pairs <<high 16 bits, low 16 bits>> (TLC integers are 32-bit signed), bytes as
   integers 0..255, byte lists as sequences.                                                *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

W16 == 65536
IsWord(w) == w[1] \in 0..(W16 - 1) /\ w[2] \in 0..(W16 - 1)

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div W16) % W16, lo % W16>>
WOfNat(n)  == <<n \div W16, n % W16>>             \* n < 2^31
WLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

Pow2 == [k \in 0..30 |-> 2^k]

\* bit n (0 least significant) of a word
WBit(w, n) == IF n < 16 THEN (w[2] \div Pow2[n]) % 2 ELSE (w[1] \div Pow2[n - 16]) % 2
\* the word whose bit n is b(n)
WMake(b(_)) == LET half(off) == LET h[k \in 0..16] == IF k = 16 THEN 0 ELSE b(k + off) * Pow2[k] + h[k + 1] IN h[0]
               IN <<half(16), half(0)>>

\* rotation to the left by 0 < n < 16, and in general
WRotS(w, n) == LET a == w[1] * Pow2[n]
                   b == w[2] * Pow2[n]
               IN <<(a % W16) + b \div W16, (b % W16) + a \div W16>>
WRotl(w, n) == LET m == n % 32
                   v == IF m >= 16 THEN <<w[2], w[1]>> ELSE w
               IN IF m % 16 = 0 THEN v ELSE WRotS(v, m % 16)

\* bytes of a word, least significant first, and back
WBytesLE(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
WOfLE(b0, b1, b2, b3) == <<b2 + 256 * b3, b0 + 256 * b1>>

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

\* generated data: byte i (from 0) is (a*i + b + c*(i \div 256)) % 256
GenByte(g, i) == (g[1] * i + g[2] + g[3] * (i \div 256)) % 256
Gen(g) == [k \in 1..g[4] |-> GenByte(g, k - 1)]
=============================================================================
