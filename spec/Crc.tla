--------------------------------- MODULE Crc ---------------------------------
(* Cyclic redundancy checks by polynomial division, with the published parameters of each variant
   (Rocksoft model: width, polynomial, initial register, input/output reflection, final XOR).
   A register of width 32 is a word pair; widths 8 and 16 use the pair <<0, value>>.        *)
EXTENDS Words, TLC

VARIABLE crcs           \* function: stream id -> [v, reg, done]

P(w, poly, init, ri, ro, x) == [w |-> w, poly |-> poly, init |-> init, ri |-> ri, ro |-> ro, xor |-> x]
P8(poly, init, refl, x) == P(8, <<0, poly>>, <<0, init>>, refl, refl, <<0, x>>)
P16(poly, init, refl, x) == P(16, <<0, poly>>, <<0, init>>, refl, refl, <<0, x>>)
P32(poly, init, refl, x) == P(32, poly, init, refl, refl, x)
F32 == <<65535, 65535>>
Z32 == <<0, 0>>

\* catalogue of parametrised CRC algorithms (values in decimal; hexadecimal in the comment)
Variants ==
    ("Crc8"             :> P8(7, 0, FALSE, 0))             @@ \* 07 00 - 00
    ("Crc8_8h2f"        :> P8(47, 255, FALSE, 255))        @@ \* 2F FF - FF
    ("Crc8_cdma2000"    :> P8(155, 255, FALSE, 0))         @@ \* 9B FF - 00
    ("Crc8_darc"        :> P8(57, 0, TRUE, 0))             @@ \* 39 00 r 00
    ("Crc8_dvbS2"       :> P8(213, 0, FALSE, 0))           @@ \* D5 00 - 00
    ("Crc8_ebu"         :> P8(29, 255, TRUE, 0))           @@ \* 1D FF r 00
    ("Crc8_icode"       :> P8(29, 253, FALSE, 0))          @@ \* 1D FD - 00
    ("Crc8_itu"         :> P8(7, 0, FALSE, 85))            @@ \* 07 00 - 55
    ("Crc8_maxim"       :> P8(49, 0, TRUE, 0))             @@ \* 31 00 r 00
    ("Crc8_rohc"        :> P8(7, 255, TRUE, 0))            @@ \* 07 FF r 00
    ("Crc8_saeJ1850"    :> P8(29, 255, FALSE, 255))        @@ \* 1D FF - FF
    ("Crc8_saeJ1850Zero" :> P8(29, 0, FALSE, 0))           @@ \* 1D 00 - 00
    ("Crc8_wcdma"       :> P8(155, 0, TRUE, 0))            @@ \* 9B 00 r 00
    ("Crc16_a"          :> P16(4129, 50886, TRUE, 0))      @@ \* 1021 C6C6 r 0000
    ("Crc16_arc"        :> P16(32773, 0, TRUE, 0))         @@ \* 8005 0000 r 0000
    ("Crc16_augCcit"    :> P16(4129, 7439, FALSE, 0))      @@ \* 1021 1D0F - 0000
    ("Crc16_buypass"    :> P16(32773, 0, FALSE, 0))        @@ \* 8005 0000 - 0000
    ("Crc16_ccitFalse"  :> P16(4129, 65535, FALSE, 0))     @@ \* 1021 FFFF - 0000
    ("Crc16_ccitZero"   :> P16(4129, 0, FALSE, 0))         @@ \* 1021 0000 - 0000
    ("Crc16_cdma2000"   :> P16(51303, 65535, FALSE, 0))    @@ \* C867 FFFF - 0000
    ("Crc16_dds110"     :> P16(32773, 32781, FALSE, 0))    @@ \* 8005 800D - 0000
    ("Crc16_dectR"      :> P16(1417, 0, FALSE, 1))         @@ \* 0589 0000 - 0001
    ("Crc16_dectX"      :> P16(1417, 0, FALSE, 0))         @@ \* 0589 0000 - 0000
    ("Crc16_dnp"        :> P16(15717, 0, TRUE, 65535))     @@ \* 3D65 0000 r FFFF
    ("Crc16_en13757"    :> P16(15717, 0, FALSE, 65535))    @@ \* 3D65 0000 - FFFF
    ("Crc16_genibus"    :> P16(4129, 65535, FALSE, 65535)) @@ \* 1021 FFFF - FFFF
    ("Crc16_kermit"     :> P16(4129, 0, TRUE, 0))          @@ \* 1021 0000 r 0000
    ("Crc16_maxim"      :> P16(32773, 0, TRUE, 65535))     @@ \* 8005 0000 r FFFF
    ("Crc16_mcrf4xx"    :> P16(4129, 65535, TRUE, 0))      @@ \* 1021 FFFF r 0000
    ("Crc16_modbus"     :> P16(32773, 65535, TRUE, 0))     @@ \* 8005 FFFF r 0000
    ("Crc16_riello"     :> P16(4129, 45738, TRUE, 0))      @@ \* 1021 B2AA r 0000
    ("Crc16_t10Dif"     :> P16(35767, 0, FALSE, 0))        @@ \* 8BB7 0000 - 0000
    ("Crc16_teledisk"   :> P16(41111, 0, FALSE, 0))        @@ \* A097 0000 - 0000
    ("Crc16_tms37157"   :> P16(4129, 35308, TRUE, 0))      @@ \* 1021 89EC r 0000
    ("Crc16_usb"        :> P16(32773, 65535, TRUE, 65535)) @@ \* 8005 FFFF r FFFF
    ("Crc16_x25"        :> P16(4129, 65535, TRUE, 65535))  @@ \* 1021 FFFF r FFFF
    ("Crc32"            :> P32(<<1217, 7607>>, F32, TRUE, F32))    @@ \* 04C11DB7 FFFFFFFF r FFFFFFFF
    ("Crc32_bzip2"      :> P32(<<1217, 7607>>, F32, FALSE, F32))   @@ \* 04C11DB7 FFFFFFFF - FFFFFFFF
    ("Crc32_c"          :> P32(<<7900, 28481>>, F32, TRUE, F32))   @@ \* 1EDC6F41 FFFFFFFF r FFFFFFFF
    ("Crc32_d"          :> P32(<<43059, 38955>>, F32, TRUE, F32))  @@ \* A833982B FFFFFFFF r FFFFFFFF
    ("Crc32_jamcrc"     :> P32(<<1217, 7607>>, F32, TRUE, Z32))    @@ \* 04C11DB7 FFFFFFFF r 00000000
    ("Crc32_mpeg2"      :> P32(<<1217, 7607>>, F32, FALSE, Z32))   @@ \* 04C11DB7 FFFFFFFF - 00000000
    ("Crc32_posix"      :> P32(<<1217, 7607>>, Z32, FALSE, F32))   @@ \* 04C11DB7 00000000 - FFFFFFFF
    ("Crc32_q"          :> P32(<<33089, 16811>>, Z32, FALSE, Z32)) @@ \* 814141AB 00000000 - 00000000
    ("Crc32_xfer"       :> P32(<<0, 175>>, Z32, FALSE, Z32))          \* 000000AF 00000000 - 00000000

(* ---- the definition: division, one message bit at a time ---- *)
TopBit(w, r) == IF w = 8 THEN r[2] \div 128 ELSE IF w = 16 THEN r[2] \div 32768 ELSE r[1] \div 32768
Shl1(w, r) == IF w = 8 THEN <<0, (r[2] * 2) % 256>>
              ELSE IF w = 16 THEN <<0, (r[2] * 2) % W16>>
              ELSE <<((r[1] * 2) % W16) + r[2] \div 32768, (r[2] * 2) % W16>>
BitStep(w, poly, r, bit) == LET s == Shl1(w, r) IN IF TopBit(w, r) # bit THEN WXor(s, poly) ELSE s

Byte2Bits(b) == [k \in 1..8 |-> (b \div Pow2[8 - k]) % 2]           \* most significant first
RefByte(b) == LET s == Byte2Bits(b) IN s[1] + 2*s[2] + 4*s[3] + 8*s[4] + 16*s[5] + 32*s[6] + 64*s[7] + 128*s[8]
RefTab == [b \in 0..255 |-> RefByte(b)]
DivByte(w, poly, r, b) == FoldLeft(LAMBDA x, bit : BitStep(w, poly, x, bit), r, Byte2Bits(b))

RefReg(w, r) == IF w = 8 THEN <<0, RefTab[r[2]]>>
                ELSE LET h(x) == RefTab[x % 256] * 256 + RefTab[x \div 256] IN
                     IF w = 16 THEN <<0, h(r[2])>> ELSE <<h(r[2]), h(r[1])>>

(* ---- the same division eight bits at a time: MC_Crc checks the two against each other ---- *)
TableOf(w, poly) == [x \in 0..255 |-> DivByte(w, poly, <<0, 0>>, x)]
ByteStep(w, tab, r, b) ==
    IF w = 8 THEN tab[r[2] ^^ b]
    ELSE IF w = 16 THEN LET t == tab[(r[2] \div 256) ^^ b] IN <<0, ((r[2] % 256) * 256) ^^ t[2]>>
    ELSE LET t == tab[(r[1] \div 256) ^^ b] IN
         <<((r[1] % 256) * 256 + r[2] \div 256) ^^ t[1], ((r[2] % 256) * 256) ^^ t[2]>>

Polys == {<<Variants[v].w, Variants[v].poly>> : v \in DOMAIN Variants}
Tables == [p \in Polys |-> TableOf(p[1], p[2])]

Feed(p, r0, d) ==
    LET tab == Tables[<<p.w, p.poly>>] IN
    IF p.ri THEN FoldLeft(LAMBDA r, b : ByteStep(p.w, tab, r, RefTab[b]), r0, d)
    ELSE FoldLeft(LAMBDA r, b : ByteStep(p.w, tab, r, b), r0, d)
FeedBits(p, r0, d) ==
    FoldLeft(LAMBDA r, b : DivByte(p.w, p.poly, r, IF p.ri THEN RefTab[b] ELSE b), r0, d)
Finish(p, r) == WXor(IF p.ro THEN RefReg(p.w, r) ELSE r, p.xor)

(* ---- many copies of one byte: feeding a byte is an affine map of the register over GF(2), and n of them are
   its n-th power.  A map is its value at zero and what each register bit contributes.  MC_Crc checks it. *)
UnitReg(w, k) == IF k > 16 THEN <<Pow2[k - 17], 0>> ELSE <<0, Pow2[k - 1]>>
RegBit(r, k) == IF k > 16 THEN (r[1] \div Pow2[k - 17]) % 2 ELSE (r[2] \div Pow2[k - 1]) % 2
MapApply(w, f, r) == FoldLeft(LAMBDA x, k : IF RegBit(r, k) = 1 THEN WXor(x, f.col[k]) ELSE x, f.zero, [k \in 1..w |-> k])
\* f after g
MapCompose(w, f, g) ==
    LET lin(r) == WXor(MapApply(w, f, r), f.zero)
    IN TLCEval([zero |-> MapApply(w, f, g.zero), col |-> TLCEval([k \in 1..w |-> lin(g.col[k])])])
ByteMap(p, b) ==
    LET tab == Tables[<<p.w, p.poly>>]
        x == IF p.ri THEN RefTab[b] ELSE b
        z == ByteStep(p.w, tab, <<0, 0>>, x)
    IN TLCEval([zero |-> z, col |-> TLCEval([k \in 1..p.w |-> WXor(ByteStep(p.w, tab, UnitReg(p.w, k), x), z)])])
RECURSIVE PowerApply(_, _, _, _)
PowerApply(w, f, n, r) ==
    IF n = 0 THEN r
    ELSE PowerApply(w, IF n = 1 THEN f ELSE MapCompose(w, f, f), n \div 2, IF n % 2 = 1 THEN MapApply(w, f, r) ELSE r)
FeedRep(p, r0, b, n) == PowerApply(p.w, ByteMap(p, b), n, r0)

CrcOf(v, d) == LET p == Variants[v] IN Finish(p, Feed(p, p.init, d))

CEmptyState == crcs = <<>>

(* ---- observed calls ---- *)
CrcCall(v, d, ret) == ret = CrcOf(v, d)

CrcRepCall(v, b, n, ret) == LET p == Variants[v] IN ret = Finish(p, FeedRep(p, p.init, b, n))

\* n = n[1] * 65536 + n[2] bytes: f to the power 65536 is f squared sixteen times
CrcGiant(v, b, n, ret) ==
    LET p == Variants[v]
        f == ByteMap(p, b)
        f16 == FoldLeft(LAMBDA g, k : MapCompose(p.w, g, g), f, [k \in 1..16 |-> k])
    IN ret = Finish(p, PowerApply(p.w, f16, n[1], PowerApply(p.w, f, n[2], p.init)))

CNew(i, v) == crcs' = [x \in DOMAIN crcs \cup {i} |-> IF x = i THEN [v |-> v, reg |-> Variants[v].init] ELSE crcs[x]]

\* whole: what the same function returned for the whole message in one call.  The register handed
\* from call to call is the library's own business; the final result is the CRC of the whole.
CChunk(i, d, fin, ret, whole) ==
    LET p == Variants[crcs[i].v]
        r == Feed(p, crcs[i].reg, d)
    IN /\ crcs' = [crcs EXCEPT ![i].reg = r]
       /\ fin => ret \in {Finish(p, r), whole}

CRepChunk(i, b, n, fin, ret, whole) ==
    LET p == Variants[crcs[i].v]
        r == FeedRep(p, crcs[i].reg, b, n)
    IN /\ crcs' = [crcs EXCEPT ![i].reg = r]
       /\ fin => ret \in {Finish(p, r), whole}

CTab(w, poly, tab) ==
    /\ Len(tab) = 256
    /\ \A x \in 0..255 : tab[x + 1] = DivByte(w, poly, <<0, 0>>, x)

CBase(w, poly, init, x, ro, ri, fx, d, ret) ==
    LET p == P(w, poly, init, ri, ro, IF fx THEN x ELSE Z32)
    IN ret = Finish(p, FeedBits(p, init, d))
=============================================================================
