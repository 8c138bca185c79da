------------------------------- MODULE MC_Base64 -------------------------------
(* The encoder and decoder loops of base64.c, one group of characters per step, against Base64.tla:
   same result and verdict as the specification, never a read beyond the input or a write beyond the
   stated capacity (for arbitrary input text too), and encode followed by decode is the identity. *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Bytes, MaxLen, Junk, MaxJunk

VARIABLES mode, data,           \* "enc"/"dec"; the bytes the text stands for, <<-1>> when it is any text
          in, max, pos, out, ret, pc,
          reads, writes         \* ghosts: one past the highest position read / written

B == INSTANCE Base64

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Slack(n) == {m \in {0, 1, n - 2, n - 1, n, n + 1, n + 3} : m >= 0}
Init == /\ \/ \E d \in Seqs(Bytes, MaxLen) : mode = "enc" /\ data = d /\ in = d /\ max \in Slack(B!EncLen(Len(d)) + 1)
           \/ \E d \in Seqs(Bytes, MaxLen) : \E sp \in 0..3 : mode = "dec" /\ data = d /\ in = B!Spelling(B!B64Encode(d), sp) /\ max \in Slack(Len(d))
           \/ \E t \in Seqs(Junk, MaxJunk) : mode = "dec" /\ data = <<-1>> /\ in = t /\ max \in 0..(3 * ((Len(t) + 3) \div 4) + 1)
        /\ pos = 0 /\ out = <<>> /\ ret = TRUE /\ pc = "enter" /\ reads = 0 /\ writes = 0

Max(a, b) == IF a > b THEN a ELSE b
Ret(r) == ret' = r /\ pc' = "done"
Say(s) == out' = out \o s /\ writes' = Max(writes, Len(out) + Len(s))

(* encoder *)
At(k) == in[pos + k + 1]
EncEnter == /\ mode = "enc" /\ pc = "enter"
            /\ IF B!EncLen(Len(in)) >= max THEN Ret(FALSE) ELSE pc' = "group" /\ UNCHANGED ret
            /\ UNCHANGED <<pos, out, reads, writes>>
EncGroup == /\ mode = "enc" /\ pc = "group"
            /\ IF Len(in) - pos >= 3
               THEN /\ Say(<<B!Ch64[At(0) \div 4], B!Ch64[(At(0) % 4) * 16 + At(1) \div 16], B!Ch64[(At(1) % 16) * 4 + At(2) \div 64], B!Ch64[At(2) % 64]>>)
                    /\ reads' = Max(reads, pos + 3) /\ pos' = pos + 3 /\ UNCHANGED <<pc, ret>>
               ELSE pc' = "tail" /\ UNCHANGED <<pos, out, ret, reads, writes>>
EncTail == /\ mode = "enc" /\ pc = "tail"
           /\ LET left == Len(in) - pos
                  end == IF left = 1 THEN <<B!Ch64[At(0) \div 4], B!Ch64[(At(0) % 4) * 16], 61, 61>>
                         ELSE IF left = 2 THEN <<B!Ch64[At(0) \div 4], B!Ch64[(At(0) % 4) * 16 + At(1) \div 16], B!Ch64[(At(1) % 16) * 4], 61>> ELSE <<>>
              IN /\ Say(end \o <<0>>)       \* and the terminating NUL
                 /\ reads' = Max(reads, pos + left) /\ pos' = Len(in) /\ Ret(TRUE)

(* decoder *)
V(k) == LET c == B!Idx64(in[k + 1]) IN IF c = -1 THEN 0 ELSE c         \* the table gives 0 for other characters
Pad == IF Len(in) > 0 /\ (Len(in) % 4 # 0 \/ in[Len(in)] = 61) THEN 1 ELSE 0
DecBody == (((Len(in) + 3) \div 4) - Pad) * 4
OutLen == (DecBody \div 4) * 3 + Pad
DecEnter == /\ mode = "dec" /\ pc = "enter"
            /\ IF OutLen > max \/ Len(in) = 0 THEN Ret(FALSE) ELSE pc' = "group" /\ UNCHANGED ret
            /\ UNCHANGED <<pos, out, reads, writes>>
DecGroup == /\ mode = "dec" /\ pc = "group"
            /\ IF pos < DecBody
               THEN /\ Say(<<V(pos) * 4 + V(pos + 1) \div 16, (V(pos + 1) % 16) * 16 + V(pos + 2) \div 4, (V(pos + 2) % 4) * 64 + V(pos + 3)>>)
                    /\ reads' = Max(reads, pos + 4) /\ pos' = pos + 4 /\ UNCHANGED <<pc, ret>>
               ELSE /\ IF Pad = 1 THEN pc' = "tail" /\ UNCHANGED ret ELSE Ret(TRUE)
                    /\ UNCHANGED <<pos, out, reads, writes>>
DecTail == /\ mode = "dec" /\ pc = "tail"
           /\ LET n == DecBody
                  second == IF Len(in) > n + 1 THEN V(n + 1) ELSE 0
                  more == Len(in) > n + 2 /\ in[n + 3] # 61
              IN /\ IF more /\ OutLen + 1 > max
                    THEN Say(<<V(n) * 4 + second \div 16>>) /\ Ret(FALSE)
                    ELSE Say(<<V(n) * 4 + second \div 16>> \o (IF more THEN <<(second % 16) * 16 + V(n + 2) \div 4>> ELSE <<>>)) /\ Ret(TRUE)
                 /\ reads' = Max(reads, IF Len(in) > n + 2 THEN n + 3 ELSE IF Len(in) > n + 1 THEN n + 2 ELSE n + 1)
                 /\ pos' = Len(in)

Next == (EncEnter \/ EncGroup \/ EncTail \/ DecEnter \/ DecGroup \/ DecTail) /\ UNCHANGED <<mode, data, in, max>>
vars == <<mode, data, in, max, pos, out, ret, pc, reads, writes>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ReadsInside == reads <= Len(in)
WritesInside == writes <= max
Encodes == mode = "enc" /\ pc = "done" => B!B64E(in, max, ret, ret => out[Len(out)] = 0, SubSeq(out, 1, Len(out) - 1))
Decodes == mode = "dec" /\ pc = "done" => B!B64D(in, max, ret, IF Len(out) > max THEN SubSeq(out, 1, max) ELSE out)
Inverse == mode = "dec" /\ data # <<-1>> /\ pc = "done" =>
            /\ ret = (data # <<>> /\ Len(data) <= max)
            /\ ret => out = data
Returns == <>(pc = "done")

ASSUME AlphabetInverse == \A x \in 0..63 : B!Idx64(B!Ch64[x]) = x
ASSUME SpellingsDecode == \A x \in 0..255 : \A sp \in 0..3 : \E t \in {B!Spelling(B!B64Encode(<<x>>), sp)} :
            B!Valid64(t) /\ B!B64Decode(t) = <<x>>
\* every pair of neighbouring bytes at every position of a group
ASSUME PairsDecode == \A x \in 0..255, y \in {0, 1, 15, 16, 63, 64, 170, 192, 240, 255} : \A d \in {<<x, y>>, <<y, x>>, <<85, x, y>>, <<x, 204, y>>, <<x, y, 51>>} :
                        B!B64Decode(B!B64Encode(d)) = d
\* the test vectors of RFC 4648, section 10
f == 102
o == 111
b == 98
a == 97
r == 114
ASSUME Vectors == /\ B!B64Encode(<<>>) = <<>>
                  /\ B!B64Encode(<<f>>) = <<90, 103, 61, 61>>                               \* Zg==
                  /\ B!B64Encode(<<f, o>>) = <<90, 109, 56, 61>>                            \* Zm8=
                  /\ B!B64Encode(<<f, o, o>>) = <<90, 109, 57, 118>>                        \* Zm9v
                  /\ B!B64Encode(<<f, o, o, b>>) = <<90, 109, 57, 118, 89, 103, 61, 61>>    \* Zm9vYg==
                  /\ B!B64Encode(<<f, o, o, b, a>>) = <<90, 109, 57, 118, 89, 109, 69, 61>> \* Zm9vYmE=
                  /\ B!B64Encode(<<f, o, o, b, a, r>>) = <<90, 109, 57, 118, 89, 109, 70, 121>> \* Zm9vYmFy
=============================================================================
