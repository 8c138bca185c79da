------------------------------- MODULE MC_ChaCha -------------------------------
(* The reference ChaCha20 gives the test vectors of RFC 8439, and the loop of chacha20.c - whole
   blocks, then the rest - gives byte i of the message the key-stream byte i of the stream that starts
   at the given counter, for every cutting of a message at block boundaries, the counter wrapping
   round, and with result and message in the same storage.  For the second part the block function
   is symbolic (its value is its name), blocks are BlockLen long and the counter has Wrap values. *)
EXTENDS ChaCha20

CONSTANTS BlockLen, Wrap, MaxLen

VARIABLES src,          \* the storage of the message: bytes [m, ks]: message byte m, key-stream bytes ks applied
          dst,          \* the storage of the result; inplace: it is src
          inplace, start, len,
          from, upto, ctr, j, i, pc     \* the piece [from, upto), its counter; block and byte of the loop
vars == <<chas, src, dst, inplace, start, len, from, upto, ctr, j, i, pc>>

\* x xor y twice is nothing
Apply(cell, ks) == [cell EXCEPT !.ks = (@ \cup {ks}) \ (@ \cap {ks})]
Msg(n) == [k \in 0..(n - 1) |-> [m |-> k, ks |-> {}]]
Blank(n) == [k \in 0..(n - 1) |-> [m |-> -1, ks |-> {}]]
Stream(c, k) == <<c % Wrap, k>>                 \* byte k of block number c

Init == /\ chas = <<>>
        /\ len \in 0..MaxLen /\ inplace \in BOOLEAN /\ start \in 0..(Wrap - 1)
        /\ src = Msg(len) /\ dst = (IF inplace THEN src ELSE Blank(len))
        /\ from = 0 /\ upto = 0 /\ ctr = start /\ j = 0 /\ i = 0 /\ pc = "idle"

\* the caller passes the next piece: whole blocks, or all that is left
Call == /\ pc = "idle" /\ from < len
        /\ \E n \in {x \in 1..(len - from) : x % BlockLen = 0 \/ from + x = len} : upto' = from + n
        /\ j' = 0 /\ i' = 0 /\ pc' = "block"
        /\ UNCHANGED <<chas, src, dst, inplace, start, len, from, ctr>>
Blocks == (upto - from) \div BlockLen
Rest == (upto - from) % BlockLen
\* one byte of the inner loops
Byte == /\ pc = "block"
        /\ \E at \in {from + j * BlockLen + i} : \E size \in {IF j < Blocks THEN BlockLen ELSE Rest} :
           IF i < size
           THEN /\ dst' = [dst EXCEPT ![at] = Apply(IF inplace THEN dst[at] ELSE src[at], Stream(j + ctr, i))]
                /\ src' = (IF inplace THEN dst' ELSE src)
                /\ i' = i + 1 /\ UNCHANGED <<j, pc, from, ctr>>
           ELSE IF j < Blocks THEN j' = j + 1 /\ i' = 0 /\ UNCHANGED <<dst, src, pc, from, ctr>>
           ELSE /\ pc' = "idle" /\ from' = upto /\ ctr' = (ctr + (upto - from + BlockLen - 1) \div BlockLen) % Wrap
                /\ j' = 0 /\ i' = 0 /\ UNCHANGED <<dst, src>>
        /\ UNCHANGED <<chas, inplace, start, len, upto>>
Next == Call \/ Byte
Spec == Init /\ [][Next]_vars

\* byte k of the result is byte k of the message with byte k of the stream from `start`
Ciphered(k) == dst[k] = [m |-> k, ks |-> {Stream(start + k \div BlockLen, k % BlockLen)}]
SoFar == pc = "idle" => /\ \A k \in 0..(from - 1) : Ciphered(k)
                        /\ \A k \in from..(len - 1) : dst[k] = (IF inplace THEN Msg(len)[k] ELSE Blank(len)[k])
InputKept == ~inplace => src = Msg(len)
InRange == DOMAIN dst = 0..(len - 1)

(* RFC 8439 *)
ASSUME QuarterRound ==          \* 2.1.1
    QR(<<<<4369, 4369>>, <<258, 772>>, <<39821, 28483>>, <<291, 17767>>>>, 1, 2, 3, 4) = <<<<59946, 37620>>, <<51996, 63694>>, <<17793, 18222>>, <<22657, 50363>>>>
Key == [k \in 1..32 |-> k - 1]
ASSUME BlockVector ==           \* 2.3.2
    Block(Key, <<0, 1>>, <<0, 0, 0, 9, 0, 0, 0, 74, 0, 0, 0, 0>>) =
      <<16, 241, 231, 228, 209, 59, 89, 21, 80, 15, 221, 31, 163, 32, 113, 196, 199, 209, 244, 199, 51, 192, 104, 3, 4, 34, 170, 154, 195, 212, 108, 78, 210, 130, 100, 70, 7, 159, 170, 9, 20, 194, 215, 5, 217, 139, 2, 162, 181, 18, 156, 209, 222, 22, 78, 185, 203, 208, 131, 232, 162, 80, 60, 78>>
Plain == <<76, 97, 100, 105, 101, 115, 32, 97, 110, 100, 32, 71, 101, 110, 116, 108, 101, 109, 101, 110, 32, 111, 102, 32, 116, 104, 101, 32, 99, 108, 97, 115, 115, 32, 111, 102, 32, 39, 57, 57, 58, 32, 73, 102, 32, 73, 32, 99, 111, 117, 108, 100, 32, 111, 102, 102, 101, 114, 32, 121, 111, 117, 32, 111, 110, 108, 121, 32, 111, 110, 101, 32, 116, 105, 112, 32, 102, 111, 114, 32, 116, 104, 101, 32, 102, 117, 116, 117, 114, 101, 44, 32, 115, 117, 110, 115, 99, 114, 101, 101, 110, 32, 119, 111, 117, 108, 100, 32, 98, 101, 32, 105, 116, 46>>
Cipher == <<110, 46, 53, 154, 37, 104, 249, 128, 65, 186, 7, 40, 221, 13, 105, 129, 233, 126, 122, 236, 29, 67, 96, 194, 10, 39, 175, 204, 253, 159, 174, 11, 249, 27, 101, 197, 82, 71, 51, 171, 143, 89, 61, 171, 205, 98, 179, 87, 22, 57, 214, 36, 230, 81, 82, 171, 143, 83, 12, 53, 159, 8, 97, 216, 7, 202, 13, 191, 80, 13, 106, 97, 86, 163, 142, 8, 138, 34, 182, 94, 82, 188, 81, 77, 22, 204, 248, 6, 129, 140, 233, 26, 183, 121, 55, 54, 90, 249, 11, 191, 116, 163, 91, 230, 180, 11, 142, 237, 242, 120, 94, 66, 135, 77>>
ASSUME EncryptionVector ==      \* 2.4.2
    BlockOut(Key, <<0, 1>>, <<0, 0, 0, 0, 0, 0, 0, 74, 0, 0, 0, 0>>, LAMBDA k : Plain[k + 1], Len(Plain), 0)
    \o BlockOut(Key, <<0, 1>>, <<0, 0, 0, 0, 0, 0, 0, 74, 0, 0, 0, 0>>, LAMBDA k : Plain[k + 1], Len(Plain), 1) = Cipher
Zeros(n) == [k \in 1..n |-> 0]
ASSUME Appendix ==              \* A.1, vectors 1 and 2 (first sixteen bytes)
    /\ SubSeq(Block(Zeros(32), <<0, 0>>, Zeros(12)), 1, 16) = <<118, 184, 224, 173, 160, 241, 61, 144, 64, 93, 106, 229, 83, 134, 189, 40>>
    /\ SubSeq(Block(Zeros(32), <<0, 1>>, Zeros(12)), 1, 16) = <<159, 7, 231, 190, 85, 81, 56, 122, 152, 186, 151, 124, 115, 45, 8, 13>>
ASSUME CounterWraps == WAdd(<<65535, 65535>>, WOfNat(1)) = <<0, 0>> /\ WAdd(<<65535, 65534>>, WOfNat(5)) = <<0, 3>>
=============================================================================
