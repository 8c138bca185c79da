-------------------------------- MODULE MC_Crc --------------------------------
(* The reference CRC: the division bit by bit and the division byte by byte are the same function, a
   message may be cut into chunks anywhere, and every variant has its published check value.
   The states are messages growing byte by byte, the register carried along as the C functions
   carry it (final XOR and reflection undone and redone between the calls).                    *)
EXTENDS Crc

CONSTANTS Names, Bytes, MaxLen

VARIABLES name, msg,
          bits,         \* register after msg, by the definition
          carried       \* what the chunked calls hand from one to the next: the finished value of each
vars == <<crcs, name, msg, bits, carried>>

Par == Variants[name]
All == DOMAIN Variants
Init == /\ crcs = <<>> /\ name \in (IF Names = {} THEN All ELSE Names) /\ msg = <<>>
        /\ bits = Par.init
        /\ carried = Finish(Par, Par.init)
\* undo Finish: what a function that is handed its own last result has to do
Unfinish(p, v) == LET r == WXor(v, p.xor) IN IF p.ro THEN RefReg(p.w, r) ELSE r
Next == /\ Len(msg) < MaxLen
        /\ \E b \in Bytes :
           /\ msg' = Append(msg, b)
           /\ bits' = FeedBits(Par, bits, <<b>>)
           /\ carried' = Finish(Par, Feed(Par, Unfinish(Par, carried), <<b>>))
        /\ UNCHANGED <<crcs, name>>
Spec == Init /\ [][Next]_vars

Agree == /\ Feed(Par, Par.init, msg) = bits                      \* table and division agree
         /\ carried = CrcOf(name, msg)                           \* carrying is the same as going on
Cut == \A k \in 0..Len(msg) : Feed(Par, Feed(Par, Par.init, SubSeq(msg, 1, k)), SubSeq(msg, k + 1, Len(msg))) = bits
RegisterFits == IF Par.w = 8 THEN bits[1] = 0 /\ bits[2] < 256 ELSE IF Par.w = 16 THEN bits[1] = 0 /\ bits[2] < W16 ELSE IsWord(bits)

\* copies of one byte, counted instead of written out
Copies == Len(msg) <= 1 => \A <<b, n>> \in {<<0, 5>>, <<90, 0>>, <<90, 1>>, <<255, 6>>} :
              FeedRep(Par, bits, b, n) = Feed(Par, bits, [k \in 1..n |-> b])
ASSUME TableStep == \A q \in Polys : \A x \in {0, 1, 127, 128, 255} : \A r \in {<<0, 0>>, <<0, 1>>, <<0, 128>>, <<0, 255>>} :
          ByteStep(q[1], Tables[q], r, x) = DivByte(q[1], q[2], r, x)
ASSUME ReflectTwice == /\ \A b \in 0..255 : RefTab[RefTab[b]] = b
                       /\ \A r \in {<<0, 0>>, <<0, 1>>, <<4660, 22136>>, <<65535, 1>>} : RefReg(32, RefReg(32, r)) = r

\* the published check values: the CRC of "123456789"
Check ==
    ("Crc8" :> <<0, 244>>) @@ \* F4
    ("Crc8_8h2f" :> <<0, 223>>) @@ \* DF
    ("Crc8_cdma2000" :> <<0, 218>>) @@ \* DA
    ("Crc8_darc" :> <<0, 21>>) @@ \* 15
    ("Crc8_dvbS2" :> <<0, 188>>) @@ \* BC
    ("Crc8_ebu" :> <<0, 151>>) @@ \* 97
    ("Crc8_icode" :> <<0, 126>>) @@ \* 7E
    ("Crc8_itu" :> <<0, 161>>) @@ \* A1
    ("Crc8_maxim" :> <<0, 161>>) @@ \* A1
    ("Crc8_rohc" :> <<0, 208>>) @@ \* D0
    ("Crc8_saeJ1850" :> <<0, 75>>) @@ \* 4B
    ("Crc8_saeJ1850Zero" :> <<0, 55>>) @@ \* 37
    ("Crc8_wcdma" :> <<0, 37>>) @@ \* 25
    ("Crc16_a" :> <<0, 48901>>) @@ \* BF05
    ("Crc16_arc" :> <<0, 47933>>) @@ \* BB3D
    ("Crc16_augCcit" :> <<0, 58828>>) @@ \* E5CC
    ("Crc16_buypass" :> <<0, 65256>>) @@ \* FEE8
    ("Crc16_ccitFalse" :> <<0, 10673>>) @@ \* 29B1
    ("Crc16_ccitZero" :> <<0, 12739>>) @@ \* 31C3
    ("Crc16_cdma2000" :> <<0, 19462>>) @@ \* 4C06
    ("Crc16_dds110" :> <<0, 40655>>) @@ \* 9ECF
    ("Crc16_dectR" :> <<0, 126>>) @@ \* 007E
    ("Crc16_dectX" :> <<0, 127>>) @@ \* 007F
    ("Crc16_dnp" :> <<0, 60034>>) @@ \* EA82
    ("Crc16_en13757" :> <<0, 49847>>) @@ \* C2B7
    ("Crc16_genibus" :> <<0, 54862>>) @@ \* D64E
    ("Crc16_kermit" :> <<0, 8585>>) @@ \* 2189
    ("Crc16_maxim" :> <<0, 17602>>) @@ \* 44C2
    ("Crc16_mcrf4xx" :> <<0, 28561>>) @@ \* 6F91
    ("Crc16_modbus" :> <<0, 19255>>) @@ \* 4B37
    ("Crc16_riello" :> <<0, 25552>>) @@ \* 63D0
    ("Crc16_t10Dif" :> <<0, 53467>>) @@ \* D0DB
    ("Crc16_teledisk" :> <<0, 4019>>) @@ \* 0FB3
    ("Crc16_tms37157" :> <<0, 9905>>) @@ \* 26B1
    ("Crc16_usb" :> <<0, 46280>>) @@ \* B4C8
    ("Crc16_x25" :> <<0, 36974>>) @@ \* 906E
    ("Crc32" :> <<52212, 14630>>) @@ \* CBF43926
    ("Crc32_bzip2" :> <<64649, 6424>>) @@ \* FC891918
    ("Crc32_c" :> <<58118, 37507>>) @@ \* E3069283
    ("Crc32_d" :> <<34609, 21878>>) @@ \* 87315576
    ("Crc32_jamcrc" :> <<13323, 50905>>) @@ \* 340BC6D9
    ("Crc32_mpeg2" :> <<886, 59111>>) @@ \* 0376E6E7
    ("Crc32_posix" :> <<30302, 30336>>) @@ \* 765E7680
    ("Crc32_q" :> <<12304, 49023>>) @@ \* 3010BF7F
    ("Crc32_xfer" :> <<48395, 58168>>)    \* BD0BE338
ASSUME CheckValues == /\ DOMAIN Check = All
                      /\ \A v \in All : CrcOf(v, <<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = Check[v]
=============================================================================
