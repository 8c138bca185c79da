------------------------------ MODULE ChaCha20 ------------------------------
(* ChaCha20 as in RFC 8439: block function on sixteen words, key stream, and message streams that
   are processed piecewise.                                                                *)
EXTENDS Words, TLC

VARIABLE chas           \* function: stream id -> [key, nonce, ctr, len, out]: the stream so far

\* a b c d are positions in the state x
QR(x, a, b, c, d) ==
    LET a1 == WAdd(x[a], x[b])      d1 == WRotl(WXor(x[d], a1), 16)
        c1 == WAdd(x[c], d1)        b1 == WRotS(WXor(x[b], c1), 12)
        a2 == WAdd(a1, b1)          d2 == WRotS(WXor(d1, a2), 8)
        c2 == WAdd(c1, d2)          b2 == WRotS(WXor(b1, c2), 7)
    IN [x EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]

DoubleRound(x0) ==
    LET x1 == QR(x0, 1, 5, 9, 13)   x2 == QR(x1, 2, 6, 10, 14)
        x3 == QR(x2, 3, 7, 11, 15)  x4 == QR(x3, 4, 8, 12, 16)
        x5 == QR(x4, 1, 6, 11, 16)  x6 == QR(x5, 2, 7, 12, 13)
        x7 == QR(x6, 3, 8, 9, 14)
    IN QR(x7, 4, 5, 10, 15)

Word(s, k) == WOfLE(s[k], s[k + 1], s[k + 2], s[k + 3])
InitState(key, ctr, nonce) ==
    <<<<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>>>>  \* "expand 32-byte k"
    \o [k \in 1..8 |-> Word(key, 4 * k - 3)] \o <<ctr>> \o [k \in 1..3 |-> Word(nonce, 4 * k - 3)]

Block(key, ctr, nonce) ==
    LET s == InitState(key, ctr, nonce)
        f == FoldLeft(LAMBDA x, k : DoubleRound(x), s, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)
    IN FoldLeft(LAMBDA o, k : o \o WBytesLE(WAdd(f[k], s[k])), <<>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)

ChEmptyState == chas = <<>>

\* output bytes of block number q (from 0) of a message of length len whose byte k (from 0) is at(k)
BlockOut(key, ctr, nonce, at(_), len, q) ==
    LET n == IF len <= 64 * q THEN 0 ELSE IF len - 64 * q < 64 THEN len - 64 * q ELSE 64
        b == Block(key, WAdd(ctr, WOfNat(q)), nonce)
    IN [k \in 1..n |-> at(64 * q + k - 1) ^^ b[k]]

Cha(key, nonce, ctr, at(_), len, blk) ==
    /\ \A x \in 1..Len(blk) : blk[x].o = BlockOut(key, ctr, nonce, at, len, blk[x].i)

\* a message of n[1] * 65536 + n[2] bytes, byte k of which is a*k + b
ChaGiant(key, nonce, ctr, a, b, n, blk) ==
    LET whole == n[1] * 1024 + (n[2] \div 64)        \* complete blocks
        len(q) == IF q < whole THEN 64 ELSE IF q = whole THEN n[2] % 64 ELSE 0
        plain(q, k) == (a * (((64 * (q % 4)) + k) % 256) + b) % 256
        s(q) == Block(key, WAdd(ctr, WOfNat(q)), nonce)
    IN \A x \in 1..Len(blk) : LET q == blk[x].i
                                  z == s(q) IN
           blk[x].o = [k \in 1..len(q) |-> plain(q, k - 1) ^^ z[k]]

HNew(i, key, nonce, ctr) ==
    chas' = [x \in DOMAIN chas \cup {i} |->
               IF x = i THEN [key |-> key, nonce |-> nonce, ctr |-> ctr, len |-> 0, out |-> <<>>] ELSE chas[x]]

\* a piece of a message; every piece but the last is a whole number of blocks long
HPart(i, len, o) ==
    /\ chas[i].len % 64 = 0
    /\ Len(o) = len
    /\ chas' = [chas EXCEPT ![i].len = @ + len, ![i].ctr = WAdd(@, WOfNat((len + 63) \div 64)), ![i].out = @ \o o]

\* the whole message in one call gives the bytes the pieces gave
HWhole(i, o) == o = chas[i].out

HBack(d, o) == o = d
=============================================================================
