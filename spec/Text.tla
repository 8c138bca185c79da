-------------------------------- MODULE Text --------------------------------
(* Classical ciphers, decimal numbers, character classes (crypto/, utils.h). *)
EXTENDS Words

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsLetter(c) == IsUpper(c) \/ IsLower(c)
Base(c) == IF IsUpper(c) THEN 65 ELSE 97
ShiftBy(c, s) == IF IsLetter(c) THEN ((c - Base(c) + s) % 26) + Base(c) ELSE c
Z(m) == Append(m, 0)

\* encryption e of message m, then decryption d of e; both with their NUL
Caesar(s, m, e, d) ==
    /\ e = Z([k \in 1..Len(m) |-> ShiftBy(m[k], s)])
    /\ d = Z(m)

Vernam(key, kl, m, r1, e, r2, d) ==
    IF kl # Len(m) THEN ~r1 /\ ~r2 /\ e = Z(m) /\ d = Z(m)
    ELSE /\ r1 /\ r2
         /\ d = Z(m)
         /\ Len(e) = Len(m) + 1 /\ e[Len(e)] = 0
         /\ \A k \in 1..Len(m) :
              /\ ~IsLetter(m[k]) => e[k] = m[k]
              /\ IsUpper(m[k]) => IsUpper(e[k])
              /\ IsLower(m[k]) => IsLower(e[k])
              /\ IsLetter(key[k]) => e[k] = ShiftBy(m[k], key[k] - Base(key[k]))
\* a message of n[1] * 65536 + n[2] letters and a key of another length; same: the message is as it was
VernamRefused(n, kl, r1, r2, same) == n # <<kl \div 65536, kl % 65536>> => ~r1 /\ ~r2 /\ same

IsDigit(c) == c >= 48 /\ c <= 57
Times10(w, d) == LET lo == w[2] * 10 + d IN <<w[1] * 10 + lo \div W16, lo % W16>>
DecValue(s) == FoldLeft(LAMBDA w, c : Times10(w, c - 48), <<0, 0>>, s)   \* high part may exceed 16 bits
S2U(s, ret, v) ==
    s # <<>> =>
    LET good == Len(s) <= 10 /\ (\A k \in 1..Len(s) : IsDigit(s[k])) /\ DecValue(s)[1] < W16
    IN ret = good /\ (good => v = DecValue(s))

Pow10(e, ret, v) ==
    /\ ret = (e <= 9)
    /\ ret => v = DecValue(<<49>> \o [k \in 1..e |-> 48])

Chr(c, u, l, a) == u = IsUpper(c) /\ l = IsLower(c) /\ a = (u \/ l)

(* serialisation: the w/8 low-order bytes of a word, in either order *)
LowBytes(v, w) == SubSeq(WBytesLE(v), 1, w \div 8)
Ser(w, be, v, b) == b = IF be THEN Rev(LowBytes(v, w)) ELSE LowBytes(v, w)
Des(be, b, v) == LET s == (IF be THEN Rev(b) ELSE b) \o <<0, 0, 0>> IN v = WOfLE(s[1], s[2], s[3], s[4])
Blob(be, d, o) == o = IF be THEN d ELSE Rev(d)
\* a source whose byte k is a*k + b: what was written, in rows of 256 bytes <<row, how often>>, and the rest;
\* n and the counts in units of 65536 and 1.  all: no row is left out
BlobRows(be, a, b, n, rows, all, tail) ==
    LET byte(i) == IF be THEN (a * i + b) % 256 ELSE (a * ((n[2] % 256) + 255 - i) + b) % 256     \* the same for i + 256
        whole == n[1] * 256 + (n[2] \div 256)
    IN /\ all
       /\ IF whole = 0 THEN rows = <<>>
          ELSE Len(rows) = 1 /\ rows[1].n = <<whole \div 65536, whole % 65536>> /\ rows[1].row = [k \in 1..256 |-> byte(k - 1)]
       /\ tail = [k \in 1..(n[2] % 256) |-> byte(k - 1)]
Swap(a, b, x, y) == x = b /\ y = a

(* bit operations *)
BitTest(d, n, ret, was, v) == ret = (n <= 31) /\ v = IF ret THEN WBit(d, n) ELSE was
Bit(f, d, n, ret, was, v) ==
    /\ ret = (n <= 31)
    /\ IF ~ret THEN v = was
       ELSE v = WMake(LAMBDA k : IF k # n THEN WBit(d, k)
                                 ELSE CASE f = "set" -> 1 [] f = "clear" -> 0 [] OTHER -> 1 - WBit(d, k))
Reflect(d, n, v) == n <= 32 => v = WMake(LAMBDA k : IF k < n THEN WBit(d, n - 1 - k) ELSE 0)
Rotl(d, n, v) == n <= 32 => v = WMake(LAMBDA k : WBit(d, (k + 32 - n) % 32))
=============================================================================
