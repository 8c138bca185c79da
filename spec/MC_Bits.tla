-------------------------------- MODULE MC_Bits --------------------------------
(* Bit operations and serialisation.  The loops and shift expressions of bit_manipulation.c and
   utils.c on a machine word of W bits (bytes of W/4 bits), for every value and every count, against
   the bitwise definitions; and the operators of Words.tla and Text.tla, at the real width, against
   each other.  Shift counts are checked to stay below the width of the type.                   *)
EXTENDS Text, TLC

CONSTANTS W, Vals, Counts

VARIABLES op, x, n, t, bit, res, pc, shifts     \* t: temp_data; shifts: ghost, the shift counts used
vars == <<op, x, n, t, bit, res, pc, shifts>>

M == 2^W
BitAt(v, k) == (v \div 2^k) % 2
FromBits(b(_)) == LET h[k \in 0..W] == IF k = W THEN 0 ELSE b(k) * 2^k + h[k + 1] IN h[0]

Init == /\ op \in {"reflect", "rotl", "set", "clear", "toggle", "ser"} /\ x \in Vals /\ n \in Counts
        /\ t = x /\ bit = 0 /\ res = 0 /\ pc = "go" /\ shifts = {}

Reflecting == /\ op = "reflect" /\ pc = "go"
              /\ IF bit < n
                 THEN /\ IF t % 2 = 1 THEN \E sh \in {(n - 1 - bit) % W} : /\ res' = FromBits(LAMBDA k : IF BitAt(res, k) = 1 \/ k = sh THEN 1 ELSE 0)
                                                                            /\ shifts' = shifts \cup {sh}
                         ELSE UNCHANGED <<res, shifts>>
                      /\ t' = t \div 2 /\ bit' = bit + 1 /\ UNCHANGED pc
                 ELSE pc' = "done" /\ UNCHANGED <<t, bit, res, shifts>>
Rotating == /\ op = "rotl" /\ pc = "go" /\ pc' = "done"
            /\ LET l == (x * 2^(n % W)) % M
                   r == x \div 2^((W - n) % W)
               IN /\ res' = FromBits(LAMBDA k : IF BitAt(l, k) = 1 \/ BitAt(r, k) = 1 THEN 1 ELSE 0)
                  /\ shifts' = {n % W, (W - n) % W}
            /\ UNCHANGED <<t, bit>>
One == /\ op \in {"set", "clear", "toggle"} /\ pc = "go"
       /\ IF n <= W - 1
          THEN /\ pc' = "done" /\ shifts' = {n}
               /\ \E m \in {2^n} :
                  res' = CASE op = "set" -> IF BitAt(x, n) = 1 THEN x ELSE x + m
                           [] op = "clear" -> IF BitAt(x, n) = 1 THEN x - m ELSE x
                           [] OTHER -> IF BitAt(x, n) = 1 THEN x - m ELSE x + m
          ELSE pc' = "refused" /\ UNCHANGED <<res, shifts>>
       /\ UNCHANGED <<t, bit>>
\* four digits of W/4 bits, written most significant first and read back, one digit a step
D == 2^(W \div 4)
Serial == /\ op = "ser" /\ pc = "go"
          /\ IF bit < 4 THEN /\ res' = res * D + ((x \div D^(3 - bit)) % D)
                             /\ shifts' = shifts \cup {(W \div 4) * (3 - bit)} /\ bit' = bit + 1 /\ UNCHANGED pc
             ELSE pc' = "done" /\ UNCHANGED <<res, bit, shifts>>
          /\ UNCHANGED t
Next == (Reflecting \/ Rotating \/ One \/ Serial) /\ UNCHANGED <<op, x, n>>
Spec == Init /\ [][Next]_vars

Def == CASE op = "reflect" -> FromBits(LAMBDA k : IF k < n THEN BitAt(x, n - 1 - k) ELSE 0)
         [] op = "rotl" -> FromBits(LAMBDA k : BitAt(x, (k + W - n) % W))
         [] op = "ser" -> x
         [] OTHER -> FromBits(LAMBDA k : IF k # n THEN BitAt(x, k) ELSE CASE op = "set" -> 1 [] op = "clear" -> 0 [] OTHER -> 1 - BitAt(x, k))
Right == pc = "done" /\ (op \in {"reflect", "rotl"} => n <= W) => res = Def
Refused == pc = "refused" => n > W - 1 /\ res = 0
ShiftsFit == n <= W => shifts \subseteq 0..(W - 1)

(* the operators the traces are judged with, at 32 bits *)
Halves == {0, 1, 2, 4660, 22136, 32767, 32768, 43605, 65534, 65535}
Samples == {<<h, l>> : h \in Halves, l \in {0, 1, 32768, 65535, 43605}}
ASSUME MakeIsIdentity == \A w \in Samples : WMake(LAMBDA k : WBit(w, k)) = w
ASSUME RotlAgrees == \A w \in Samples : \A m \in 0..32 : Rotl(w, m, WRotl(w, m))
ASSUME RotlTurns == \A w \in Samples : \A m \in 0..32 : WRotl(WRotl(w, m), 32 - m) = w
Refl(w, m) == WMake(LAMBDA k : IF k < m THEN WBit(w, m - 1 - k) ELSE 0)
Low(w, m) == WMake(LAMBDA k : IF k < m THEN WBit(w, k) ELSE 0)
ASSUME ReflectTwice == \A w \in Samples : \A m \in 0..32 : /\ Reflect(w, m, Refl(w, m))
                                                            /\ Refl(Refl(w, m), m) = Low(w, m)
ASSUME SerialInverse == \A w \in Samples : \A be \in BOOLEAN : \A wd \in {8, 16, 24, 32} :
          \E b \in {IF be THEN Rev(LowBytes(w, wd)) ELSE LowBytes(w, wd)} : Ser(wd, be, w, b) /\ Des(be, b, Low(w, wd))
ASSUME AddAgrees == \A p \in {0, 1, 99, 65535, 65536, 1000000} : \A q \in {0, 1, 77, 65535, 65536, 70000, 1073741823} :
          WAdd(WOfNat(p), WOfNat(q)) = WOfNat(p + q)
=============================================================================
